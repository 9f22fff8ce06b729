//! C21: a file recreated from metadata and data alone. C22: interleaved independent jobs.
use crate::deflate::*;
use crate::engine::*;
use crate::gen::*;
use crate::props_stream::{gz_bytes, GzHdr};
use crate::props_trace::text;
use crate::search::{Guess, Params};
use crate::sut;
use crate::{stage, Stage, Tier, ROOT};
use librezip::all_refs::AllRefs;
use librezip::verif_hooks::{BitVec, BitWriter};
use librezip::{filter, serialise_trace, trace, tracer, Block, CircularBuffer, Code, Config, Guesser, Technique, Trace};
use sha2::Digest;
use std::io::{Read, Write};
use std::sync::Arc;

pub fn stages(id: &str, t: Tier) -> Vec<Stage> {
    match id {
        "C21" => c21(t),
        "C22" => c22(t),
        _ => vec![],
    }
}

// ---------------------------------------------------------------- C21

/// 1..=9: gzip levels traced with the library's own tracer; 10..=18: the same levels without a candidate limit; 19: spicy.
const METHODS: usize = 19;
fn method(k: usize) -> (Config, u16) {
    match k {
        1..=9 => {
            let c = Config::gzip(k as u8);
            (c, c.wams.insert_only_below_length.unwrap_or(u16::MAX))
        }
        10..=18 => (Config::gzip(k as u8 - 9), u16::MAX),
        _ => (Config::spicy(), u16::MAX),
    }
}

enum Kept {
    Stored(usize),
    Fixed { len: usize, trace: Vec<u8> },
    Dynamic { len: usize, trace: Vec<u8>, trees: Vec<bool> },
}
struct Meta {
    header: Vec<u8>,
    blocks: Vec<Kept>,
    footer: Vec<u8>,
}

fn window(data: &[u8]) -> &[u8] {
    &data[data.len() - data.len().min(32768)..]
}

fn trace_with(k: usize, pre: &[u8], data: &[u8], codes: &[Code]) -> Vec<u8> {
    if k <= 9 {
        return serialise_trace::write(&tracer::try_gzip(k as u8, pre, data, codes));
    }
    let (cfg, limit) = method(k);
    let refs = AllRefs::with_sixteen(pre, data, limit);
    serialise_trace::write(&trace::trace(codes, &Technique::new(cfg, &refs)))
}

fn split(file: &[u8], k: usize) -> Result<(Meta, Vec<u8>), String> {
    let s = |e: anyhow_text::Any| e.to_string();
    let mut r = file;
    let header = librezip::gzip::discard_header(&mut r).map_err(|e| s(Box::new(e)))?;
    let mut data: Vec<u8> = vec![];
    let mut dict = CircularBuffer::new();
    let mut blocks = vec![];
    for b in librezip::parse_deflate(&mut r) {
        let b = b.map_err(|e| s(Box::new(e)))?;
        let pre = window(&data).to_vec();
        if pre != dict.vec() {
            return Err("the history buffer does not hold the latest data".into());
        }
        let mut out = vec![];
        librezip::decompressed_block(&mut out, &mut dict, &b).map_err(|e| s(Box::new(e)))?;
        blocks.push(match &b {
            Block::Uncompressed(d) => Kept::Stored(d.len()),
            Block::FixedHuffman(c) => Kept::Fixed { len: out.len(), trace: trace_with(k, &pre, &out, c) },
            Block::DynamicHuffman { trees, codes } => Kept::Dynamic { len: out.len(), trace: trace_with(k, &pre, &out, codes), trees: trees.iter().collect() },
        });
        data.extend(out);
    }
    let mut footer = vec![];
    r.read_to_end(&mut footer).map_err(|e| s(Box::new(e)))?;
    Ok((Meta { header, blocks, footer }, data))
}
mod anyhow_text {
    pub type Any = Box<dyn std::fmt::Display>;
}

fn join(m: &Meta, data: &[u8], k: usize) -> Result<Vec<u8>, String> {
    let s = |e: anyhow_text::Any| e.to_string();
    let (cfg, limit) = method(k);
    let mut w = BitWriter::new(vec![]);
    let mut at = 0;
    for (i, b) in m.blocks.iter().enumerate() {
        w.write_bit(i + 1 == m.blocks.len()).map_err(|e| s(Box::new(e)))?;
        let pre = window(&data[..at]);
        let codes = |len: usize, tr: &[u8]| -> Result<Vec<Code>, String> {
            let tr = serialise_trace::read(tr).map_err(|e| s(Box::new(e)))?;
            let refs = AllRefs::with_sixteen(pre, &data[at..at + len], limit);
            Ok(trace::restore(&tr, &Technique::new(cfg, &refs)))
        };
        let (blk, len) = match b {
            Kept::Stored(n) => (Block::Uncompressed(data[at..at + n].to_vec()), *n),
            Kept::Fixed { len, trace } => (Block::FixedHuffman(codes(*len, trace)?), *len),
            Kept::Dynamic { len, trace, trees } => {
                let mut v = BitVec::new();
                trees.iter().for_each(|&b| v.push(b));
                (Block::DynamicHuffman { trees: v, codes: codes(*len, trace)? }, *len)
            }
        };
        librezip::compressed_block(&mut w, &blk).map_err(|e| s(Box::new(e)))?;
        at += len;
    }
    w.align().map_err(|e| s(Box::new(e)))?;
    let mut f = m.header.clone();
    f.extend(w.into_inner());
    f.extend_from_slice(&m.footer);
    Ok(f)
}

fn recreate(file: &[u8], want: Option<&[u8]>, k: usize) -> Result<u64, String> {
    let name = match k {
        1..=9 => format!("gzip level {} (tracer)", k),
        10..=18 => format!("gzip level {}", k - 9),
        _ => "spicy".into(),
    };
    let (m, data) = guarded(|| split(file, k)).and_then(|x| x).map_err(|e| format!("{}: taking apart: {}", name, e))?;
    if let Some(w) = want {
        if data != w {
            return Err(format!("{}: the data differs from the file's content", name));
        }
    }
    let back = guarded(|| join(&m, &data, k)).and_then(|x| x).map_err(|e| format!("{}: putting together: {}", name, e))?;
    if back != file {
        let at = back.iter().zip(file).position(|(a, b)| a != b).unwrap_or(back.len().min(file.len()));
        return Err(format!("{}: recreated file of {} bytes differs from the original of {} at {}", name, back.len(), file.len(), at));
    }
    Ok(m.blocks.iter().map(|b| match b {
        Kept::Stored(_) => 0,
        Kept::Fixed { trace, .. } | Kept::Dynamic { trace, .. } => trace.len() as u64,
    }).sum())
}

fn file_of(blocks: &[B], hdr: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let c = expand(blocks).expect("generated stream is valid");
    let mut f = hdr.to_vec();
    f.extend(write_stream(blocks).bytes);
    f.extend(crc32(&c).to_le_bytes());
    f.extend((c.len() as u32).to_le_bytes());
    (f, c)
}
fn short(b: &[B]) -> String {
    let s = format!("{:?}", b.iter().map(|b| match b {
        B::Stored(d) => format!("stored {}", d.len()),
        B::Fixed(c) => format!("fixed {:?}", &c[..c.len().min(8)]),
        B::Dyn(_, c) => format!("dynamic {:?}", &c[..c.len().min(8)]),
    }).collect::<Vec<_>>());
    s
}
fn all_methods(ch: &Ch, blocks: &[B], hdr: &[u8]) -> Result<Out, String> {
    let (f, c) = file_of(blocks, hdr);
    ch.note(|| format!("{} with all {} techniques", short(blocks), METHODS));
    let mut h = fnv(&f);
    for k in 1..=METHODS {
        h = mix(h, recreate(&f, Some(&c), k).map_err(|e| format!("{} ({})", e, short(blocks)))?);
    }
    ch.inner(METHODS as u64 - 1, METHODS as u64 * blocks.len() as u64);
    ok("recreated", h)
}

fn compressed(level: u32, data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).expect("compress");
    e.finish().expect("compress")
}

fn c21(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let plain = gz_bytes(&GzHdr { flags: 0, extra: 0, name: 0, comment: 0, fill: 0 });
    let full = gz_bytes(&GzHdr { flags: 0x1f, extra: 3, name: 4, comment: 2, fill: 0 });
    let cfg = Cfg { max_blocks: 3, styles: few_styles().into_iter().take(if th { 4 } else { 1 }).collect(), stored: if th { vec![0, 1, 3, 300] } else { vec![0, 3] }, free: 0 };
    let kk = if th { 3 } else { 2 };
    let (p1, p2, p3, p4, p5, p6) = (plain.clone(), plain.clone(), plain.clone(), plain.clone(), plain.clone(), plain.clone());
    let samples: Arc<Vec<(String, Vec<u8>)>> = Arc::new({
        let mut v = vec![];
        if let Ok(d) = std::fs::read_dir(format!("{}/../repo/lib/tests/data", ROOT)) {
            for e in d.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if n.ends_with(".gz") && (th || e.metadata().map(|m| m.len() < 4000).unwrap_or(false)) {
                    v.push((n, std::fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
        v.sort();
        v
    });
    vec![
        stage("streams", 0, "every file of up to 3 blocks from menus of stored sizes, code phrases (references up to the start of all earlier data) and description styles x all 19 technique set-ups", move |ch| {
            let b = stream(ch, &cfg);
            all_methods(ch, &b, &p1)
        }),
        stage("codes", 0, "every sequence of up to 2 (thorough 3) codes over boundary distances and lengths, after a stored block, a fixed block or nothing, fixed and dynamic, x all set-ups", move |ch| {
            let mut b = match ch.pick(3) {
                0 => vec![],
                1 => vec![B::Stored(b"abcabcab".to_vec())],
                _ => vec![B::Fixed(vec![C::L(b'b'), C::L(b'a'), r(2, 9)])],
            };
            let h = expand(&b).map(|d| d.len()).unwrap_or(0);
            let c = free_codes(ch, h, kk, false);
            b.push(if ch.flag() { B::Fixed(c) } else { make_dyn(c, few_styles()[0]) });
            all_methods(ch, &b, &full)
        }),
        stage("texts", 0, "structured texts as fixed blocks of literals and greedy matches, cut into two blocks at every (quick: every third) position x all set-ups", move |ch| {
            let d = text(ch.pick(8));
            let step = if th { 1 } else { 3 };
            let cut = ch.pick(d.len() / step + 1) * step;
            let greedy = |from: usize, to: usize| {
                let mut c = vec![];
                let mut i = from;
                while i < to {
                    let best = (1..=i).map(|q| (crate::search::run_at(&d[..to], i - q, i), q)).max_by_key(|x| (x.0, usize::MAX - x.1));
                    match best {
                        Some((l, q)) if l >= 3 => {
                            c.push(r(q as u16, l));
                            i += l as usize;
                        }
                        _ => {
                            c.push(C::L(d[i]));
                            i += 1;
                        }
                    }
                }
                c
            };
            let b = match ch.pick(3) {
                0 => vec![B::Fixed(greedy(0, cut)), B::Fixed(greedy(cut, d.len()))],
                1 => vec![B::Fixed(d[..cut].iter().map(|&b| C::L(b)).collect()), make_dyn(greedy(cut, d.len()), few_styles()[1])],
                _ => vec![B::Stored(d[..cut].to_vec()), make_dyn(greedy(cut, d.len()), few_styles()[2])],
            };
            all_methods(ch, &b, &p2)
        }),
        stage("long-history", 0, "earlier data of 32766 to 65535 bytes in one or two stored blocks, then references at every boundary distance in a fixed block, then a further dynamic block x all set-ups", move |ch| {
            let n = *ch.of(&[32766usize, 32767, 32768, 32769, 40000, 65535]);
            let mut b = vec![];
            if ch.flag() {
                b.push(B::Stored(pattern(1000, 5)));
                b.push(B::Stored(pattern(n - 1000, 2)));
            } else {
                b.push(B::Stored(pattern(n, 2)));
            }
            let h = n.min(32768) as u16;
            let d = *ch.of(&[1u16, 4096, 4097, 32506, 32507, 32508, 32509, 32510, 32511, 32512, h - 1, h]);
            let l = *ch.of(&[3u16, 4, 258]);
            b.push(B::Fixed(vec![r(d, l), C::L(b'q'), r(h, 5)]));
            if ch.flag() {
                b.push(make_dyn(vec![r(32760, 100), C::L(1), r(2, 3)], few_styles()[0]));
            }
            let (f, c) = file_of(&b, &p3);
            ch.note(|| short(&b));
            let ks: Vec<usize> = if th { (1..=METHODS).collect() } else { vec![1, 4, 9, 12, 19] };
            let mut x = fnv(&f);
            for &k in &ks {
                x = mix(x, recreate(&f, Some(&c), k).map_err(|e| format!("{} ({})", e, short(&b)))?);
            }
            ch.inner(ks.len() as u64 - 1, 0);
            ok("recreated", x)
        }),
        stage("far-copies", 0, "earlier data without repetitions, 32506 to 65535 bytes in one or two stored blocks; a block that starts with 3 to 258 bytes from 1 to 32768 back (11 distances), as literals, as a reference or as a literal and a reference x all set-ups", move |ch| {
            let n = *ch.of(&[32768usize, 32506, 32767, 32769, 33000, 65535]);
            let d = *ch.of(&[32768usize, 1, 4096, 4097, 32506, 32507, 32508, 32510, 32511, 32512, 32767]);
            let len = *ch.of(&[4usize, 3, 258]);
            let way = ch.pick(3);
            if d > n || d < len {
                return ok("no-room", 0);
            }
            let all = crate::props_trace::far_bytes(n);
            let copy = &all[n - d..n - d + len];
            let mut b = vec![];
            if ch.flag() {
                b.push(B::Stored(all[..1000].to_vec()));
                b.push(B::Stored(all[1000..].to_vec()));
            } else {
                b.push(B::Stored(all.clone()));
            }
            let mut c: Vec<C> = match way {
                0 => copy.iter().map(|&b| C::L(b)).collect(),
                1 => vec![r(d as u16, len as u16)],
                _ if len > 3 => vec![C::L(copy[0]), r(d as u16, len as u16 - 1)],
                _ => copy.iter().map(|&b| C::L(b)).chain([C::L(255)]).collect(),
            };
            c.extend([C::L(255), C::L(254)]);
            b.push(B::Fixed(c));
            let (f, c) = file_of(&b, &p6);
            ch.note(|| short(&b));
            let mut x = fnv(&f);
            for k in 1..=METHODS {
                x = mix(x, recreate(&f, Some(&c), k).map_err(|e| format!("{} ({} bytes from {} back after {} others, way {})", e, len, d, n, way))?);
            }
            ch.inner(METHODS as u64 - 1, 0);
            ok("recreated", x)
        }),
        stage("scale", 0, "streams of very many blocks, of blocks with very many codes, of large stored blocks, and with the longest descriptions x several set-ups", move |ch| {
            let b = scale_stream(ch, th, true, true);
            let (f, c) = file_of(&b, &p5);
            ch.note(|| short(&b[..b.len().min(4)]));
            let ks: Vec<usize> = if th { vec![1, 3, 4, 5, 12] } else { vec![1, 4, 12] };
            let mut x = fnv(&f);
            for &k in &ks {
                x = mix(x, recreate(&f, Some(&c), k).map_err(|e| format!("{} (scale, {} blocks)", e, b.len()))?);
            }
            ch.inner(ks.len() as u64 - 1, 0);
            ok("recreated", x)
        }),
        stage("compressor", 0, "output of an independent compressor at every level 0 to 9 over six kinds of content of up to 5000 (thorough 200000) bytes x every set-up", move |ch| {
            let lens: &[usize] = if th { &[0, 1, 10, 1000, 5000, 40000, 70000, 200000] } else { &[0, 1, 10, 1000, 5000] };
            let n = *ch.of(lens);
            let d: Vec<u8> = match ch.pick(6) {
                0 => pattern(n, 3),
                1 => vec![b'a'; n],
                2 => (0..n).map(|i| b"the quick brown fox "[(i * i / 7 + i) % 20]).collect(),
                3 => (0..n).map(|i| (i as u32).wrapping_mul(2654435761).rotate_left(9) as u8).collect(),
                4 => (0..n).map(|i| b'0' + ((i / 3) % 10) as u8 + ((i / 41) % 3) as u8).collect(),
                _ => text(2).into_iter().chain(text(4)).cycle().take(n).collect(),
            };
            let level = ch.pick(10) as u32;
            let mut f = p4.clone();
            f.extend(compressed(level, &d));
            f.extend(crc32(&d).to_le_bytes());
            f.extend((n as u32).to_le_bytes());
            ch.note(|| format!("{} bytes at compressor level {}", n, level));
            let k = 1 + ch.pick(METHODS);
            let x = recreate(&f, Some(&d), k).map_err(|e| format!("{} ({} bytes at compressor level {})", e, n, level))?;
            ok("recreated", mix(fnv(&f), x))
        }),
        stage("samples", 0, "every sample file in the repository (quick: those under 4000 bytes) x every set-up", move |ch| {
            if samples.is_empty() {
                return ok("no-samples", 0);
            }
            let (n, f) = ch.of(&samples[..]);
            let k = 1 + ch.pick(METHODS);
            ch.note(|| n.clone());
            let x = recreate(f, None, k).map_err(|e| format!("{}: {}", n, e))?;
            ok("recreated", mix(fnv(f), x))
        }),
    ]
}

// ---------------------------------------------------------------- C22

#[derive(Clone)]
enum Spec {
    /// parse, expand and write back, three steps per block
    Pipe(&'static str, Vec<B>),
    /// guess step by step
    Walk(&'static str, Config, Params, Vec<u8>, usize),
    /// trace, serialise, read, restore
    Trace(&'static str, Config, Params, Vec<u8>, usize, Vec<C>),
    /// hash while reading or writing
    Hash(&'static str, Vec<u8>, bool),
    /// take a header
    Header(&'static str, Vec<u8>),
    /// fill and copy in a small history buffer
    Ring(&'static str, u16, Vec<(u16, u16)>),
    /// write and read a long trace
    Meta(&'static str, Vec<Trace>),
    /// a stream that must be refused
    Bad(&'static str, Vec<u8>),
    /// expand and write back with sinks that have too little room
    Full(&'static str, Vec<B>, usize),
}
impl Spec {
    fn name(&self) -> &'static str {
        match self {
            Spec::Pipe(n, ..) | Spec::Walk(n, ..) | Spec::Trace(n, ..) | Spec::Hash(n, ..) | Spec::Header(n, ..) | Spec::Ring(n, ..) | Spec::Meta(n, ..) | Spec::Bad(n, ..) | Spec::Full(n, ..) => n,
        }
    }
}

type Step<'x> = Box<dyn FnMut() -> Result<bool, String> + 'x>;

/// Expected trace, by the reference guesser.
fn model_trace(all: &[u8], pre: usize, p: Params, codes: &[C]) -> Vec<Trace> {
    let mut g = Guess::new(all, pre, p);
    let mut v = vec![];
    let mut i = 0;
    while g.more() && i < codes.len() {
        for x in g.predict() {
            let right = x == codes[i];
            v.push(match (right, &codes[i]) {
                (true, _) => Trace::Correct,
                (_, C::L(_)) => Trace::ActuallyLiteral,
                (_, C::R { len, dist, .. }) => Trace::Actually(sut::mkref(*dist, *len)),
            });
            g.feed(&codes[i]);
            i += 1;
            if !right || i == codes.len() {
                break;
            }
        }
    }
    v
}

fn wrong(spec: &Spec, what: String) -> String {
    format!("job '{}': {}", spec.name(), what)
}

/// Shares one vector between the steps of a job and the writer it owns.
#[derive(Clone, Default)]
struct Tub(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Write for Tub {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The metadata every job wrote before any other job had run.
static FIRST: std::sync::Mutex<Vec<(&'static str, Vec<u8>)>> = std::sync::Mutex::new(vec![]);
fn remember(specs: &[Spec]) {
    for s in specs {
        let b = match s {
            Spec::Trace(_, _, p, all, pre, codes) => serialise_trace::write(&model_trace(all, *pre, *p, codes)),
            Spec::Meta(_, t) => serialise_trace::write(t),
            _ => continue,
        };
        FIRST.lock().unwrap().push((s.name(), b));
    }
}
fn same_as_first(spec: &Spec, bytes: &[u8]) -> Result<(), String> {
    if cfg!(rvmc_stepped) {
        return Ok(());
    }
    match FIRST.lock().unwrap().iter().find(|x| x.0 == spec.name()) {
        Some((_, b)) if b != bytes => Err(wrong(spec, format!("writes metadata {} instead of {} as at first", hex(bytes), hex(b)))),
        _ => Ok(()),
    }
}

fn job<'x>(spec: &'x Spec, tech: Option<&'x Technique<'x, 'x, 'x>>) -> Step<'x> {
    match spec {
        Spec::Pipe(_, blocks) => {
            let bytes = write_stream(blocks).bytes;
            let rb: Vec<RB> = blocks.iter().map(to_rb).collect();
            let want = expand(blocks).expect("valid");
            let mut it = librezip::parse_deflate(std::io::Cursor::new(bytes.clone()));
            let mut dict = CircularBuffer::new();
            let mut out = vec![];
            let tub = Tub::default();
            let mut w = Some(BitWriter::new(tub.clone()));
            let mut cur: Option<Block> = None;
            let (mut phase, mut i) = (0, 0);
            Box::new(move || {
                match phase {
                    0 => {
                        match it.next() {
                            Some(Ok(b)) => {
                                if i >= rb.len() {
                                    return Err(wrong(spec, "too many blocks".into()));
                                }
                                sut::block_eq(&b, &rb[i]).map_err(|e| wrong(spec, e))?;
                                cur = Some(b);
                                phase = 1;
                            }
                            Some(Err(e)) => return Err(wrong(spec, format!("refused: {}", e))),
                            None => {
                                if i != rb.len() {
                                    return Err(wrong(spec, format!("{} blocks instead of {}", i, rb.len())));
                                }
                                let mut w = w.take().unwrap();
                                w.align().map_err(|e| wrong(spec, e.to_string()))?;
                                w.into_inner();
                                if out != want {
                                    return Err(wrong(spec, "expanded data differs".into()));
                                }
                                if *tub.0.borrow() != bytes {
                                    return Err(wrong(spec, format!("written back as {}", hex(&tub.0.borrow()))));
                                }
                                return Ok(false);
                            }
                        }
                    }
                    1 => {
                        librezip::decompressed_block(&mut out, &mut dict, cur.as_ref().unwrap()).map_err(|e| wrong(spec, e.to_string()))?;
                        if !want.starts_with(&out) {
                            return Err(wrong(spec, "expanded data differs".into()));
                        }
                        phase = 2;
                    }
                    _ => {
                        let w = w.as_mut().unwrap();
                        w.write_bit(i + 1 == rb.len()).map_err(|e| wrong(spec, e.to_string()))?;
                        librezip::compressed_block(w, cur.as_ref().unwrap()).map_err(|e| wrong(spec, e.to_string()))?;
                        i += 1;
                        phase = 0;
                    }
                }
                Ok(true)
            })
        }
        Spec::Walk(_, _, p, all, pre) => {
            let mut sc = tech.expect("technique").scanner();
            let mut m = Guess::new(all, *pre, *p);
            Box::new(move || {
                if sc.more_data() != m.more() {
                    return Err(wrong(spec, "more_data differs".into()));
                }
                if !m.more() {
                    return Ok(false);
                }
                let g = sut::to_c(&sc.codes());
                let w = m.predict();
                if g != w {
                    return Err(wrong(spec, format!("at {} guessed {:?} instead of {:?}", m.pos, g, w)));
                }
                // follow the guess, but take a literal instead of every third reference
                let x = match &w[0] {
                    C::R { .. } if m.pos % 3 == 2 => C::L(all[m.pos]),
                    x => x.clone(),
                };
                sc.feedback(sut::to_code(&x));
                m.feed(&x);
                Ok(true)
            })
        }
        Spec::Trace(_, _, p, all, pre, codes) => {
            let want = model_trace(all, *pre, *p, codes);
            let cs = sut::to_codes(codes);
            let tech = tech.expect("technique");
            let mut phase = 0;
            let mut tr: Vec<Trace> = vec![];
            let mut bytes = vec![];
            Box::new(move || {
                match phase {
                    0 => {
                        tr = trace::trace(&cs, tech);
                        if !sut::same_trace(&tr, &want) {
                            return Err(wrong(spec, format!("trace {:?} instead of {:?}", tr, want)));
                        }
                    }
                    1 => {
                        bytes = serialise_trace::write(&tr);
                        same_as_first(spec, &bytes)?;
                    }
                    2 => {
                        tr = serialise_trace::read(&bytes[..]).map_err(|e| wrong(spec, e.to_string()))?;
                        if !sut::same_trace(&tr, &want) {
                            return Err(wrong(spec, format!("read back {:?} instead of {:?}", tr, want)));
                        }
                    }
                    _ => {
                        if !sut::same_codes(&trace::restore(&tr, tech), &cs) {
                            return Err(wrong(spec, "restored codes differ".into()));
                        }
                        return Ok(false);
                    }
                }
                phase += 1;
                Ok(true)
            })
        }
        Spec::Hash(_, d, reading) => {
            let want = sha2::Sha512::digest(d).to_vec();
            let mut r = Some(filter::FilterRead::new(&d[..]));
            let mut w = Some(filter::FilterWrite::new(vec![]));
            let mut at = 0;
            Box::new(move || {
                if at < d.len() {
                    let n = (d.len() - at).min(1 + d.len() / 3);
                    if *reading {
                        let mut b = vec![0; n];
                        r.as_mut().unwrap().read_exact(&mut b).map_err(|e| wrong(spec, e.to_string()))?;
                        if b != d[at..at + n] {
                            return Err(wrong(spec, "data differs".into()));
                        }
                    } else {
                        w.as_mut().unwrap().write_all(&d[at..at + n]).map_err(|e| wrong(spec, e.to_string()))?;
                    }
                    at += n;
                    return Ok(true);
                }
                let h = if *reading { r.take().unwrap().hash() } else { w.take().unwrap().hash() };
                if h != want {
                    return Err(wrong(spec, "digest differs".into()));
                }
                Ok(false)
            })
        }
        Spec::Header(_, h) => {
            let mut n = 0;
            Box::new(move || {
                let mut f = h.clone();
                f.extend([1, 2, 3]);
                let mut r = &f[..];
                let g = librezip::gzip::discard_header(&mut r).map_err(|e| wrong(spec, e.to_string()))?;
                if g != *h || r != [1, 2, 3] {
                    return Err(wrong(spec, format!("header taken as {}", hex(&g))));
                }
                n += 1;
                Ok(n < 2)
            })
        }
        Spec::Ring(_, cap, ops) => {
            let mut buf = CircularBuffer::with_capacity(*cap);
            let mut all: Vec<u8> = vec![];
            let mut i = 0;
            Box::new(move || {
                let (d, l) = ops[i];
                if d == 0 {
                    for k in 0..l {
                        buf.push((k as u8).wrapping_mul(7) ^ *cap as u8);
                        all.push((k as u8).wrapping_mul(7) ^ *cap as u8);
                    }
                } else {
                    buf.copy(d, l, std::io::sink()).map_err(|e| wrong(spec, e.to_string()))?;
                    for _ in 0..l {
                        all.push(all[all.len() - d as usize]);
                    }
                }
                if buf.vec() != all[all.len() - all.len().min(*cap as usize)..] {
                    return Err(wrong(spec, "history differs".into()));
                }
                i += 1;
                Ok(i < ops.len())
            })
        }
        Spec::Meta(_, t) => {
            let mut bytes = vec![];
            let mut phase = 0;
            Box::new(move || {
                phase += 1;
                if phase == 1 {
                    bytes = serialise_trace::write(t);
                    same_as_first(spec, &bytes)?;
                    return Ok(true);
                }
                let back = serialise_trace::read(&bytes[..]).map_err(|e| wrong(spec, e.to_string()))?;
                if !sut::same_trace(&back, t) {
                    return Err(wrong(spec, "the trace reads back differently".into()));
                }
                Ok(false)
            })
        }
        Spec::Bad(_, bytes) => {
            let mut it = librezip::parse_deflate(&bytes[..]);
            let mut out = vec![];
            let mut dict = CircularBuffer::new();
            let want = crate::deflate::decode(bytes);
            let mut n = 0;
            Box::new(move || match it.next() {
                Some(Ok(b)) => {
                    n += 1;
                    if n > want.blocks.len() + 1 {
                        return Err(wrong(spec, "more blocks than before the fault".into()));
                    }
                    Ok(librezip::decompressed_block(&mut out, &mut dict, &b).is_ok())
                }
                Some(Err(_)) => Ok(false),
                None => Err(wrong(spec, "a malformed stream is taken as complete".into())),
            })
        }
        Spec::Full(_, blocks, room) => {
            let bytes = write_stream(blocks).bytes;
            let mut phase = 0;
            Box::new(move || {
                let mut it = librezip::parse_deflate(&bytes[..]);
                let mut small = vec![0u8; *room];
                let mut sink = std::io::Cursor::new(&mut small[..]);
                let mut failed = false;
                if phase == 0 {
                    let mut dict = CircularBuffer::new();
                    while let (Some(Ok(b)), false) = (it.next(), failed) {
                        failed = librezip::decompressed_block(&mut sink, &mut dict, &b).is_err();
                    }
                } else {
                    let mut w = BitWriter::new(&mut sink);
                    while let (Some(Ok(b)), false) = (it.next(), failed) {
                        failed = w.write_bit(false).and_then(|_| librezip::compressed_block(&mut w, &b)).is_err();
                    }
                    failed |= w.align().is_err();
                }
                if !failed {
                    return Err(wrong(spec, "no error although the sink is full".into()));
                }
                phase += 1;
                Ok(phase < 2)
            })
        }
    }
}

fn specs() -> Vec<Spec> {
    let s = few_styles();
    let l = C::L;
    let g1 = Config::gzip(1);
    let g4 = Config::gzip(4);
    let g9 = Config::gzip(9);
    let lim = |p: Params| p.limit(65535);
    let dynb = |codes: Vec<C>, k: usize| make_dyn(codes, s[k]);
    // the same symbols used, but different lengths assigned: descriptions of the same size that differ in a few bits
    let swapped = |flip: bool| {
        let mut lit = vec![0u8; 257];
        lit[b'a' as usize] = if flip { 1 } else { 2 };
        lit[b'b' as usize] = if flip { 2 } else { 1 };
        lit[256] = 2;
        B::Dyn(hdr_from_lens(&lit, &[0], Rle::Greedy, false), vec![l(b'a'), l(b'b'), l(b'b'), l(b'a')])
    };
    let t0: Vec<u8> = b"abcdabcdeabc".to_vec();
    let t1: Vec<u8> = b"abceabcdeabc".to_vec();
    let t2: Vec<u8> = b"aaaaaaaaaaaa".to_vec();
    let lits = |d: &[u8]| d.iter().map(|&b| C::L(b)).collect::<Vec<C>>();
    vec![
        Spec::Pipe("fixed", vec![B::Fixed(vec![l(b'a'), r(1, 4)])]),
        Spec::Pipe("fixed-other", vec![B::Fixed(vec![l(b'b'), r(1, 4)])]),
        Spec::Pipe("stored+fixed", vec![B::Stored(vec![9, 8, 7]), B::Fixed(vec![r(3, 5), l(6)])]),
        Spec::Pipe("stored-other+fixed", vec![B::Stored(vec![7, 8, 9]), B::Fixed(vec![r(3, 5), l(6)])]),
        Spec::Pipe("dynamic-ab", vec![swapped(false)]),
        Spec::Pipe("dynamic-ba", vec![swapped(true)]),
        Spec::Pipe("dynamic-two", vec![dynb(vec![l(b'x'), l(b'y'), r(2, 9)], 0), dynb(vec![r(5, 7), l(b'x')], 1)]),
        Spec::Pipe("dynamic-no-distance", vec![dynb(vec![l(b'x'), l(b'y')], 0), B::Fixed(vec![r(2, 3)])]),
        Spec::Walk("guess-1", g1, lim(Params::gzip(1)), t0.clone(), 0),
        Spec::Walk("guess-1-other", g1, lim(Params::gzip(1)), t1.clone(), 0),
        Spec::Walk("guess-9-runs", g9, Params::gzip(9), t2.clone(), 3),
        Spec::Walk("guess-spicy", Config::spicy(), Params::spicy(), t0.clone(), 4),
        Spec::Walk("guess-4-preroll", g4, Params::gzip(4), t1.clone(), 4),
        Spec::Trace("trace-1", g1, lim(Params::gzip(1)), t0.clone(), 4, lits(&t0[4..])),
        Spec::Trace("trace-1-other", g1, lim(Params::gzip(1)), t1.clone(), 4, lits(&t1[4..])),
        Spec::Trace("trace-9", g9, Params::gzip(9), t0.clone(), 4, vec![r(4, 4), l(b'e'), r(5, 3)]),
        Spec::Trace("trace-spicy", Config::spicy(), Params::spicy(), t2.clone(), 1, vec![l(b'a'), r(1, 3), r(2, 7)]),
        Spec::Hash("hash-read", (0..200u8).collect(), true),
        Spec::Hash("hash-write", (0..200u8).rev().collect(), false),
        Spec::Hash("hash-empty", vec![], true),
        Spec::Header("header-name", gz_bytes(&GzHdr { flags: 8, extra: 0, name: 5, comment: 0, fill: 0 })),
        Spec::Header("header-all", gz_bytes(&GzHdr { flags: 0x1e, extra: 4, name: 5, comment: 3, fill: 0 })),
        Spec::Ring("ring-5", 5, vec![(0, 3), (2, 4), (0, 1), (5, 9)]),
        Spec::Ring("ring-7", 7, vec![(0, 4), (3, 4), (0, 2), (7, 8)]),
    ]
}

/// Large jobs and jobs that end in an error.
fn rare_specs(th: bool) -> (Vec<Spec>, Vec<Spec>) {
    let s = few_styles();
    let correct = |n: usize| vec![Trace::Correct; n];
    let mut mixed = correct(40000);
    mixed.push(Trace::ActuallyLiteral);
    mixed.extend(correct(32767));
    mixed.push(Trace::Actually(sut::mkref(32768, 258)));
    let many: Vec<C> = (0..70000u32).map(|i| if i > 2 && i % 5 == 0 { r(1 + (i % 3) as u16, 3 + (i % 200) as u16) } else { C::L((i * 7) as u8) }).collect();
    let every = |lens: &[u16]| {
        let mut c: Vec<C> = (0..=255u8).map(C::L).collect();
        c.extend(lens.iter().map(|&l| r(1 + (l * 97) % 256, l)));
        c
    };
    let all_lens: Vec<u16> = (3..=258).collect();
    let alternating: Vec<B> = (0..300).map(|i| match i % 3 {
        0 => B::Stored(vec![i as u8; i % 7]),
        1 => B::Fixed(vec![C::L(i as u8), C::L(1), r(2, 3)]),
        _ => make_dyn(vec![C::L(i as u8), r(1, 3 + i as u16 % 256)], s[i % s.len()]),
    }).collect();
    let far: Vec<B> = vec![B::Stored(pattern(40000, 3)), B::Fixed([1u16, 4096, 4097, 32767, 32768].iter().map(|&d| r(d, 258)).collect())];
    let t3: Vec<u8> = text(1).into_iter().cycle().take(700).collect();
    let lits3: Vec<C> = t3[10..].iter().map(|&b| C::L(b)).collect();
    let big = vec![
        Spec::Meta("metadata of 33000 right guesses", correct(33000)),
        Spec::Meta("metadata of 70000 right guesses", correct(70000)),
        Spec::Meta("metadata with long runs", mixed),
        Spec::Pipe("70000 codes", vec![B::Fixed(many.clone())]),
        Spec::Pipe("70000 codes, dynamic", vec![make_dyn(many[..65600].to_vec(), s[0]), make_dyn(many[5..300].to_vec(), s[1])]),
        Spec::Pipe("three stored blocks of 65535", (0..3).map(|i| B::Stored(pattern(65535, i))).collect()),
        Spec::Pipe("300 blocks", alternating),
        Spec::Pipe("every literal and length", vec![B::Fixed(every(&all_lens)), make_dyn(every(&all_lens), s[1])]),
        Spec::Pipe("references as far as can be", far),
        Spec::Pipe("a block of nothing", vec![B::Stored(vec![]), B::Fixed(vec![]), make_dyn(vec![], s[0])]),
        Spec::Hash("hash of 1 MiB read", pattern(1 << 20, 1), true),
        Spec::Hash("hash of 1 MiB written", pattern(1 << 20, 2), false),
        Spec::Header("long name", gz_bytes(&GzHdr { flags: 0x18, extra: 0, name: 70000, comment: 5, fill: 0 })),
        Spec::Header("long extra", gz_bytes(&GzHdr { flags: 0x1e, extra: 65535, name: 5, comment: 70000, fill: 1 })),
        Spec::Ring("ring-32768", 32768, vec![(0, 65535), (32768, 65535), (32767, 258), (0, 3), (1, 32768)]),
        Spec::Ring("ring-1", 1, vec![(0, 1), (1, 300)]),
        Spec::Trace("trace of 700 literals", Config::gzip(9), Params::gzip(9), t3.clone(), 10, lits3.clone()),
        Spec::Trace("trace of 700 literals, spicy", Config::spicy(), Params::spicy(), t3.clone(), 10, lits3),
        Spec::Walk("walk of 700 bytes", Config::gzip(6), Params::gzip(6), t3, 0),
    ];
    let mut bad: Vec<Spec> = crate::props_stream::targeted()
        .into_iter()
        .filter(|(_, b)| matches!(crate::deflate::decode(b).end, crate::deflate::End::Truncated | crate::deflate::End::Invalid(_)))
        .map(|(n, b)| Spec::Bad(n, b))
        .collect();
    if !th {
        // six of every kind
        let mut seen: std::collections::HashMap<&'static str, usize> = Default::default();
        bad.retain(|b| {
            let n = seen.entry(b.name()).or_default();
            *n += 1;
            *n <= 6
        });
    }
    let blocks = vec![B::Stored(vec![1, 2, 3, 4]), B::Fixed(vec![r(2, 9), C::L(7)]), make_dyn(vec![C::L(5), r(3, 20), r(1, 30)], s[0])];
    for room in [0usize, 1, 3, 4, 5, 12, 14, 15, 20] {
        bad.push(Spec::Full("sink without room", blocks.clone(), room));
    }
    (big, bad)
}

/// `free`: every step may switch jobs; otherwise leaving a job that has not ended costs one preemption.
fn interleave(ch: &Ch, chosen: &[&Spec], max_switch_free: usize, free: bool) -> Result<Out, String> {
    // match tables and techniques are made up front, in job order
    let refs: Vec<Option<AllRefs>> = chosen
        .iter()
        .map(|s| match s {
            Spec::Walk(_, _, _, all, pre) | Spec::Trace(_, _, _, all, pre, _) => Some(AllRefs::with_sixteen(&all[..*pre], &all[*pre..], u16::MAX)),
            _ => None,
        })
        .collect();
    let techs: Vec<Option<Technique>> = chosen
        .iter()
        .zip(&refs)
        .map(|(s, r)| match s {
            Spec::Walk(_, c, ..) | Spec::Trace(_, c, ..) => Some(Technique::new(*c, r.as_ref().unwrap())),
            _ => None,
        })
        .collect();
    let mut jobs: Vec<(usize, Step)> = chosen.iter().zip(&techs).enumerate().map(|(i, (s, t))| (i, job(s, t.as_ref()))).collect();
    let mut order: Vec<u8> = vec![];
    let mut steps = 0;
    let mut current: Option<usize> = None;
    while !jobs.is_empty() {
        let k = match current.and_then(|c| jobs.iter().position(|j| j.0 == c)) {
            _ if jobs.len() == 1 => 0,
            Some(at) if !free => (at + ch.dev(jobs.len())) % jobs.len(),
            _ => ch.pick(jobs.len()),
        };
        current = Some(jobs[k].0);
        order.push(jobs[k].0 as u8);
        steps += 1;
        let more = guarded(|| (jobs[k].1)()).and_then(|x| x).map_err(|e| format!("{} (order of steps {:?} of jobs {:?})", e, order, chosen.iter().map(|s| s.name()).collect::<Vec<_>>()))?;
        if !more {
            jobs.remove(k);
        }
        if steps > max_switch_free {
            return Err("a job does not end".into());
        }
    }
    ch.note(|| format!("jobs {:?} in order {:?}", chosen.iter().map(|s| s.name()).collect::<Vec<_>>(), order));
    ch.inner(0, steps as u64);
    ok("all-unaffected", fnv(&order))
}

/// Calls `tick` before every read or write it passes on.
struct Ticking<'t, T>(T, &'t dyn Fn());
impl<T: Read> Read for Ticking<'_, T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        (self.1)();
        self.0.read(b)
    }
}
impl<T: Write> Write for Ticking<'_, T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        (self.1)();
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

#[derive(Clone)]
enum Outer {
    Expand(&'static str, Vec<B>),
    Rewrite(&'static str, Vec<B>),
    Header(Vec<u8>),
    Metadata(Vec<Trace>),
    HashIn(Vec<u8>),
    HashOut(Vec<u8>),
    Candidates(Vec<u8>, usize),
}
impl Outer {
    fn name(&self) -> &'static str {
        match self {
            Outer::Expand(n, _) | Outer::Rewrite(n, _) => n,
            Outer::Header(_) => "header",
            Outer::Metadata(_) => "metadata",
            Outer::HashIn(_) => "hash-in",
            Outer::HashOut(_) => "hash-out",
            Outer::Candidates(..) => "candidates",
        }
    }
    /// One whole operation, with `tick` called in the middle of it whenever it reaches its environment.
    fn run(&self, tick: &dyn Fn()) -> Result<(), String> {
        let e = |x: Box<dyn std::fmt::Display>| format!("{}: {}", self.name(), x);
        match self {
            Outer::Expand(_, b) => {
                let bytes = write_stream(b).bytes;
                let mut out = vec![];
                let mut dict = CircularBuffer::new();
                let mut n = 0;
                for blk in librezip::parse_deflate(Ticking(&bytes[..], tick)) {
                    let blk = blk.map_err(|x| e(Box::new(x)))?;
                    if n >= b.len() {
                        return Err(e(Box::new("too many blocks")));
                    }
                    sut::block_eq(&blk, &to_rb(&b[n])).map_err(|x| e(Box::new(x)))?;
                    n += 1;
                    librezip::decompressed_block(Ticking(&mut out, tick), &mut dict, &blk).map_err(|x| e(Box::new(x)))?;
                }
                if n != b.len() || out != expand(b).expect("valid") {
                    return Err(e(Box::new("the expanded data differs")));
                }
            }
            Outer::Rewrite(_, b) => {
                let bytes = write_stream(b).bytes;
                let blocks: Vec<Block> = librezip::parse_deflate(&bytes[..]).collect::<Result<_, _>>().map_err(|x| e(Box::new(x)))?;
                let mut out = vec![];
                {
                    let mut w = BitWriter::new(Ticking(&mut out, tick));
                    for (i, blk) in blocks.iter().enumerate() {
                        w.write_bit(i + 1 == blocks.len()).map_err(|x| e(Box::new(x)))?;
                        librezip::compressed_block(&mut w, blk).map_err(|x| e(Box::new(x)))?;
                    }
                    w.align().map_err(|x| e(Box::new(x)))?;
                }
                if out != bytes {
                    return Err(e(Box::new(format!("written back as {}", hex(&out)))));
                }
            }
            Outer::Header(h) => {
                let g = librezip::gzip::discard_header(Ticking(&h[..], tick)).map_err(|x| e(Box::new(x)))?;
                if g != *h {
                    return Err(e(Box::new(format!("taken as {}", hex(&g)))));
                }
            }
            Outer::Metadata(t) => {
                let b = serialise_trace::write(t);
                let back = serialise_trace::read(Ticking(&b[..], tick)).map_err(|x| e(Box::new(x)))?;
                if !sut::same_trace(&back, t) {
                    return Err(e(Box::new(format!("read as {:?}", back))));
                }
            }
            Outer::HashIn(d) => {
                let mut r = filter::FilterRead::new(Ticking(&d[..], tick));
                let mut buf = [0u8; 7];
                let mut got = vec![];
                loop {
                    let n = r.read(&mut buf).map_err(|x| e(Box::new(x)))?;
                    if n == 0 {
                        break;
                    }
                    got.extend_from_slice(&buf[..n]);
                }
                if got != *d || r.hash() != sha2::Sha512::digest(d).to_vec() {
                    return Err(e(Box::new("data or digest differs")));
                }
            }
            Outer::HashOut(d) => {
                let mut w = filter::FilterWrite::new(Ticking(vec![], tick));
                for c in d.chunks(7) {
                    w.write_all(c).map_err(|x| e(Box::new(x)))?;
                }
                if w.hash() != sha2::Sha512::digest(d).to_vec() {
                    return Err(e(Box::new("digest differs")));
                }
            }
            Outer::Candidates(all, pre) => {
                let refs = AllRefs::with_sixteen(&all[..*pre], &all[*pre..], u16::MAX);
                for pos in *pre..all.len() {
                    let want: Vec<(u16, u16)> = (1..pos)
                        .rev()
                        .map(|q| ((pos - q) as u16, crate::search::run_at(all, q, pos) as u16))
                        .filter(|x| x.1 >= 3)
                        .collect();
                    let mut got = vec![];
                    if let Some(it) = refs.at(pos, &[]) {
                        for r in it {
                            tick();
                            got.push((r.dist, r.run()));
                        }
                    }
                    if got != want {
                        return Err(e(Box::new(format!("at {}: {:?} instead of {:?}", pos, got, want))));
                    }
                }
            }
        }
        Ok(())
    }
}

fn outers() -> Vec<Outer> {
    let l = C::L;
    let s = few_styles();
    let mixed = vec![B::Stored(vec![9, 8, 7]), B::Fixed(vec![r(3, 5), l(6)]), make_dyn(vec![l(b'x'), l(b'y'), r(2, 9), l(b'x')], s[0])];
    let two = vec![make_dyn(vec![l(b'p'), l(b'q'), r(2, 4)], s[1]), make_dyn(vec![l(b'q'), r(5, 3)], s[0])];
    vec![
        Outer::Expand("expand", mixed.clone()),
        Outer::Expand("expand-dynamic", two.clone()),
        Outer::Rewrite("rewrite", mixed),
        Outer::Rewrite("rewrite-dynamic", two),
        Outer::Header(gz_bytes(&GzHdr { flags: 0x1e, extra: 4, name: 5, comment: 3, fill: 0 })),
        Outer::Metadata(vec![Trace::Correct, Trace::ActuallyLiteral, Trace::Actually(sut::mkref(32768, 258)), Trace::Correct, Trace::Correct, Trace::Actually(sut::mkref(1, 3))]),
        Outer::HashIn((0..40u8).collect()),
        Outer::HashOut((0..40u8).rev().collect()),
        Outer::Candidates(b"abababcababxabab".to_vec(), 3),
    ]
}

/// The outer operation reaches its environment; there, other jobs run to their end, on this or another thread.
fn within(ch: &Ch, outer: &Outer, inner: &[Spec], many: usize) -> Result<Out, String> {
    let n = std::cell::Cell::new(0usize);
    outer.run(&|| n.set(n.get() + 1)).map_err(|e| format!("alone: {}", e))?;
    let total = n.get();
    let mut plan: Vec<(usize, usize, bool)> = vec![];
    for _ in 0..1 + ch.pick(many) {
        let from = plan.last().map(|p| p.0 + 1).unwrap_or(0);
        if from >= total {
            break;
        }
        plan.push((from + ch.pick(total - from), ch.pick(inner.len()), ch.flag()));
    }
    ch.note(|| format!("{} with {:?} (tick, job, other thread)", outer.name(), plan));
    n.set(0);
    let failed: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
    let again = |k: usize| interleave(&Ch::new(vec![], 0, false), &[&inner[k]], 200, true).map(|_| ());
    let tick = || {
        let now = n.get();
        n.set(now + 1);
        for &(at, k, apart) in &plan {
            if at == now {
                let r = if apart { std::thread::scope(|s| s.spawn(|| guarded(|| again(k)).and_then(|x| x)).join()).unwrap_or_else(|_| Err("panic".into())) } else { again(k) };
                if let Err(e) = r {
                    failed.borrow_mut().get_or_insert(e);
                }
            }
        }
    };
    let r = guarded(|| outer.run(&tick)).and_then(|x| x);
    let what = || format!("({} interrupted at {:?})", outer.name(), plan.iter().map(|p| (p.0, inner[p.1].name(), if p.2 { "on another thread" } else { "on the same thread" })).collect::<Vec<_>>());
    if let Some(e) = failed.into_inner() {
        return Err(format!("{} {}", e, what()));
    }
    r.map_err(|e| format!("{} {}", e, what()))?;
    ch.inner(plan.len() as u64, total as u64);
    ok("unaffected", fnv(format!("{} {:?}", outer.name(), plan).as_bytes()))
}

/// The jobs of the preemptive interleavings: all small ones, and some that are refused.
fn step_jobs() -> Vec<Spec> {
    let mut v = specs();
    let mut seen = std::collections::HashSet::new();
    let kinds = ["reserved-type", "stored-padding", "reserved-length", "reserved-distance", "length-without-distance", "nothing-to-repeat", "repeat-past-the-end", "too-many-literal-codes", "too-few-distance-codes"];
    v.extend(crate::props_stream::targeted().into_iter().filter(|b| kinds.contains(&b.0) && seen.insert(b.0)).map(|(n, b)| Spec::Bad(n, b)));
    v
}

#[cfg(rvmc_stepped)]
pub fn step(what: &str, n: &[u64]) {
    let jobs = step_jobs();
    let (a, b) = (&jobs[n[0] as usize], &jobs[n[1] as usize]);
    let run = |k: &Spec| interleave(&Ch::new(vec![], 0, false), &[k], 5000, true).map(|_| ());
    let (ja, jb) = (|| run(a), || run(b));
    match what {
        "all" => crate::step::all([&ja, &jb], n[2] != 0, n[3], n[4], n[5]),
        _ => crate::step::first_use([&ja, &jb], n[2] as i32, &n[3..]),
    }
}

/// Runs the stepped build, in a process of its own.
fn stepped(args: &[String]) -> Result<Vec<u64>, String> {
    let exe = format!("{}/target/stepped/rvmc", ROOT);
    let o = std::process::Command::new(&exe).arg("step").args(args).output().unwrap_or_else(|e| panic!("{}: {}", exe, e));
    let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
    let line = s.lines().last().unwrap_or("").to_string();
    match line.split_once(' ') {
        Some(("good", n)) => Ok(n.split(' ').map(|x| if x == "end" { 0 } else { x.parse().unwrap_or(1) }).collect()),
        Some(("bad", w)) => Err(w.split_once(' ').map(|x| x.1).unwrap_or(w).to_string()),
        _ if o.status.code().is_none() => Err(format!("the process is killed ({:?})", o.status)),
        _ => panic!("stepped explorer: {:?} {} {}", o.status, line, String::from_utf8_lossy(&o.stderr)),
    }
}

fn preempted_stages(th: bool) -> Vec<Stage> {
    let names: Arc<Vec<&'static str>> = Arc::new(step_jobs().iter().map(|s| s.name()).collect());
    let names2 = names.clone();
    let coarse = names.clone();
    vec![
        stage("preempted", 0, "two jobs on two threads, one of which runs at a time (instrumented build): every schedule in which the first gives way once, at the entry of any function of the code under test (each job against the next: the first 20 entries of each function, thorough every entry; thorough also every ordered pair: the first 40 entries)", move |ch| {
            // every job against the next one (mostly of its kind), and some that end in an error
            let few = [("reserved-length", "fixed"), ("nothing-to-repeat", "dynamic-ab"), ("dynamic-ab", "fixed"), ("trace-1", "guess-1")];
            let at = |n: &str| names.iter().position(|x| *x == n).expect("job");
            let k = ch.pick(names.len() + few.len() + if th { names.len() * names.len() } else { 0 });
            let near = k < names.len() + few.len();
            let (i, j) = if k < names.len() {
                (k, (k + 1) % names.len())
            } else if near {
                (at(few[k - names.len()].0), at(few[k - names.len()].1))
            } else {
                let k = k - names.len() - few.len();
                (k / names.len(), k % names.len())
            };
            let most = if !near { "40" } else if th { "0" } else { "20" };
            let (part, parts) = (ch.pick(8), 8);
            let n = stepped(&["all".into(), i.to_string(), j.to_string(), "1".into(), most.into(), part.to_string(), parts.to_string()]).map_err(|e| format!("'{}' and '{}': {}", names[i], names[j], e))?;
            ch.inner(n[0], n[0]);
            ch.note(|| format!("'{}' ({} points) interrupted by '{}'", names[i], n[1], names[j]));
            ok("unaffected", mix(mix(i as u64, j as u64), part as u64))
        }),
        stage("preempted-shared", 0, "the same for every ordered pair of jobs, both giving way up to once each, at any function of the standard library for state that threads can share (locks, atomics, once)", move |ch| {
            let (i, j) = (ch.pick(coarse.len()), ch.pick(coarse.len()));
            let n = stepped(&["all".into(), i.to_string(), j.to_string(), "0".into(), if th { "1000" } else { "300" }.into(), "0".into(), "1".into()]).map_err(|e| format!("'{}' and '{}': {}", coarse[i], coarse[j], e))?;
            ch.inner(n[0], n[0]);
            ch.note(|| format!("'{}' ({} points) interleaved with '{}' ({} points)", coarse[i], n[3], coarse[j], n[4]));
            ok("unaffected", mix(i as u64, j as u64))
        }),
        stage("preempted-first-use", 0, "the same in a process in which nothing has run before, the first giving way once at any point of the second kind", move |ch| {
            let menu: Vec<usize> = (0..names2.len()).filter(|&i| th || ["dynamic-two", "fixed", "trace-1", "header-all", "hash-read"].contains(&names2[i])).collect();
            let (i, j) = (*ch.of(&menu), *ch.of(&menu));
            let mut k = 1u64;
            loop {
                let n = stepped(&["first".into(), i.to_string(), j.to_string(), "2".into(), k.to_string()]).map_err(|e| format!("'{}' and '{}', both for the first time: {}", names2[i], names2[j], e))?;
                if n[2] == 0 || k == 2000 {
                    break;
                }
                k += 1;
            }
            ch.inner(k, k);
            ok("unaffected", mix(i as u64, j as u64))
        }),
    ]
}

fn c22(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let s = Arc::new(specs());
    let rare = rare_specs(th);
    remember(&s);
    remember(&rare.0);
    let (s1, s2, s3, s4, s5) = (s.clone(), s.clone(), s.clone(), s.clone(), s);
    let outs = outers();
    let bad2 = rare_specs(th).1;
    let mut v = vec![
        stage("alone", 0, "every job alone, and every ordered pair of whole jobs one after the other", move |ch| {
            let a = ch.of(&s1[..]);
            interleave(ch, &[a], 200, true)?;
            if ch.flag() {
                let b = ch.of(&s1[..]);
                return interleave(ch, &[b], 200, true);
            }
            ok("alone", fnv(a.name().as_bytes()))
        }),
        stage("aftermath", 0, "every ordered pair of 19 large jobs (70000 codes, 1 MiB, 70000 trace entries, headers of 70000 bytes, 300 blocks, ...) and of jobs that end in an error (up to six for every rule of RFC 1951, thorough all; sinks without room), one after the other on one thread, and then all 24 small jobs", {
            let s5 = s5;
            let (big, bad) = rare;
            move |ch| {
                let all = big.len() + bad.len();
                let get = |k: usize| if k < big.len() { &big[k] } else { &bad[k - big.len()] };
                let a = ch.pick(all);
                let b = ch.pick(all);
                if !th && a < big.len() && b < big.len() && a % 4 != 0 && b % 4 != 0 && a != b {
                    return ok("skipped-in-quick", 0);
                }
                let name = |e: String| format!("{} (after '{}' and '{}')", e, get(a).name(), get(b).name());
                for k in [a, b] {
                    interleave(ch, &[get(k)], 5000, true).map_err(name)?;
                }
                for x in s5.iter() {
                    interleave(ch, &[x], 200, true).map_err(name)?;
                }
                ch.note(|| format!("'{}' then '{}' then all small jobs", get(a).name(), get(b).name()));
                ok("unaffected", fnv(format!("{} {}", a, b).as_bytes()))
            }
        }),
        stage("shapes", 0, "a stream whose last block has any of 128 dynamic shapes (every style), then a stream of any of those shapes or one that breaks any rule of RFC 1951", {
            let shapes = all_styles();
            let bad = bad2;
            let l = C::L;
            let mut jobs: Vec<Spec> = shapes.iter().map(|&st| Spec::Pipe("one dynamic block of a shape", vec![make_dyn(vec![l(b'p'), l(b'q'), r(2, 4), l(200), r(1, 258)], st)])).collect();
            jobs.push(Spec::Pipe("one dynamic block of nothing", vec![make_dyn(vec![], shapes[0])]));
            remember(&jobs);
            let n = jobs.len();
            jobs.extend(bad);
            move |ch| {
                let a = ch.pick(n);
                let b = ch.pick(jobs.len());
                let name = |e: String| format!("{} (style {:?} then {} '{}')", e, shapes.get(a), b, jobs[b].name());
                for k in [a, b] {
                    interleave(ch, &[&jobs[k]], 5000, true).map_err(name)?;
                }
                ok("unaffected", mix(a as u64, b as u64))
            }
        }),
        stage("pairs", if th { 0 } else { 3 }, "every pair of 24 jobs (including a job with itself) x every interleaving of their steps (quick: every interleaving with at most 3 preemptions)", move |ch| {
            let i = ch.pick(s2.len());
            let j = i + ch.pick(s2.len() - i);
            interleave(ch, &[&s2[i], &s2[j]], 200, th)
        }),
        stage("triples", 0, "every triple out of 4 (thorough 9) short jobs x every interleaving of their steps", move |ch| {
            let pick: Vec<&Spec> = s3
                .iter()
                .filter(|x| {
                    let mut names = vec!["dynamic-ab", "dynamic-ba", "trace-1", "hash-read"];
                    if th {
                        names.extend(["trace-1-other", "fixed", "trace-9", "header-all", "ring-5"]);
                    }
                    names.contains(&x.name())
                })
                .collect();
            let i = ch.pick(pick.len());
            let j = i + ch.pick(pick.len() - i);
            let k = j + ch.pick(pick.len() - j);
            interleave(ch, &[pick[i], pick[j], pick[k]], 200, true)
        }),
        stage("within", 0, "nine operations, each left in the middle at every read, write or candidate for one whole other job (24 of them; thorough: for up to two jobs in turn), on the same or another thread", move |ch| {
            let o = ch.of(&outs[..]);
            within(ch, o, &s4, if th { 2 } else { 1 })
        }),
    ];
    if crate::BUILD == "checked" {
        // first: the stages below run on many threads at once, which shows such faults too, but at no schedule of ours
        let mut p = preempted_stages(th);
        p.append(&mut v);
        v = p;
    }
    v
}
