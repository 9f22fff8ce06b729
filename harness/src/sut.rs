//! Thin adapters around the real crate.
use crate::deflate::{C, RB};
use librezip::verif_hooks::BitWriter;
use librezip::{Block, CircularBuffer, Code};
use std::io::{Read, Write};

/// All blocks until the end or the first error.
pub fn parse_all<R: Read>(r: R) -> (Vec<Block>, Option<String>) {
    let mut v = vec![];
    for b in librezip::parse_deflate(r) {
        match b {
            Ok(b) => v.push(b),
            Err(e) => return (v, Some(format!("{}", e))),
        }
    }
    (v, None)
}

pub fn code_eq(a: &Code, b: &C) -> bool {
    match (a, b) {
        (Code::Literal(x), C::L(y)) => x == y,
        (Code::Reference(x), C::R { len, dist, .. }) => x.dist == *dist && x.run() == *len,
        _ => false,
    }
}

pub fn codes_eq(a: &[Code], b: &[C]) -> Result<(), String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if code_eq(x, y) => {}
            (x, y) => return Err(format!("code {}: got {:?}, expected {:?}", i, x, y)),
        }
    }
    Ok(())
}

pub fn block_eq(a: &Block, b: &RB) -> Result<(), String> {
    match (a, b) {
        (Block::Uncompressed(x), RB::Stored(y)) => {
            if x == y {
                Ok(())
            } else {
                Err(format!("stored block: got {} bytes, expected {} bytes, or contents differ", x.len(), y.len()))
            }
        }
        (Block::FixedHuffman(x), RB::Fixed(y)) => codes_eq(x, y),
        (Block::DynamicHuffman { trees, codes }, RB::Dyn(t, y)) => {
            if trees.len() != t.len() || !trees.iter().eq(t.iter().cloned()) {
                return Err("description bits of the dynamic block differ".into());
            }
            codes_eq(codes, y)
        }
        (a, b) => Err(format!("block kind: got {}, expected {}", kind(a), rkind(b))),
    }
}
pub fn kind(a: &Block) -> &'static str {
    match a {
        Block::Uncompressed(_) => "stored",
        Block::FixedHuffman(_) => "fixed",
        Block::DynamicHuffman { .. } => "dynamic",
    }
}
fn rkind(a: &RB) -> &'static str {
    match a {
        RB::Stored(_) => "stored",
        RB::Fixed(_) => "fixed",
        RB::Dyn(..) => "dynamic",
    }
}

/// `exact`: the number of blocks must match too, otherwise `a` may be shorter.
pub fn blocks_eq(a: &[Block], b: &[RB]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} blocks, expected {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        block_eq(x, y).map_err(|e| format!("block {}: {}", i, e))?;
    }
    Ok(())
}

pub fn reencode_to<W: Write>(w: W, blocks: &[Block]) -> Result<W, String> {
    let mut bw = BitWriter::new(w);
    for (i, b) in blocks.iter().enumerate() {
        bw.write_bit(i + 1 == blocks.len()).map_err(|e| e.to_string())?;
        librezip::compressed_block(&mut bw, b).map_err(|e| e.to_string())?;
    }
    bw.align().map_err(|e| e.to_string())?;
    Ok(bw.into_inner())
}
pub fn reencode(blocks: &[Block]) -> Result<Vec<u8>, String> {
    reencode_to(vec![], blocks)
}

pub fn expand(blocks: &[Block]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut d = CircularBuffer::new();
    for b in blocks {
        librezip::decompressed_block(&mut out, &mut d, b).map_err(|e| e.to_string())?;
    }
    Ok(out)
}

pub fn to_c(codes: &[Code]) -> Vec<C> {
    codes
        .iter()
        .map(|c| match c {
            Code::Literal(b) => C::L(*b),
            Code::Reference(r) => C::R { len: r.run(), dist: r.dist, alt: false },
        })
        .collect()
}

/// A reference can only be made by the crate itself: decode one from trace metadata.
pub fn mkref(dist: u16, len: u16) -> librezip::Ref {
    match librezip::serialise_trace::read(&[dist as u8, (dist >> 8) as u8, (len - 3) as u8][..]) {
        Ok(v) => match v[..] {
            [librezip::Trace::Actually(r)] if r.dist == dist && r.run() == len => r,
            _ => mkref_parse(dist, len),
        },
        Err(_) => mkref_parse(dist, len),
    }
}
/// Fallback through the DEFLATE parser, should the metadata reader be broken.
fn mkref_parse(dist: u16, len: u16) -> librezip::Ref {
    let s = crate::deflate::write_stream(&[crate::deflate::B::Fixed(vec![crate::deflate::r(dist, len)])]);
    let (b, _) = parse_all(&s.bytes[..]);
    match b.first() {
        Some(Block::FixedHuffman(c)) => match c.first() {
            Some(Code::Reference(r)) => *r,
            _ => panic!("cannot build a reference ({}, {})", dist, len),
        },
        _ => panic!("cannot build a reference ({}, {})", dist, len),
    }
}
pub fn to_code(c: &C) -> Code {
    match *c {
        C::L(b) => Code::Literal(b),
        C::R { len, dist, .. } => Code::Reference(mkref(dist, len)),
    }
}
pub fn to_codes(c: &[C]) -> Vec<Code> {
    c.iter().map(to_code).collect()
}

// Comparisons by value, never through the crate's own equality.
pub fn same_ref(a: &librezip::Ref, b: &librezip::Ref) -> bool {
    a.dist == b.dist && a.run() == b.run()
}
pub fn same_code(a: &Code, b: &Code) -> bool {
    match (a, b) {
        (Code::Literal(x), Code::Literal(y)) => x == y,
        (Code::Reference(x), Code::Reference(y)) => same_ref(x, y),
        _ => false,
    }
}
pub fn same_codes(a: &[Code], b: &[Code]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_code(x, y))
}
pub fn correct(t: &librezip::Trace) -> bool {
    matches!(t, librezip::Trace::Correct)
}
pub fn same_entry(a: &librezip::Trace, b: &librezip::Trace) -> bool {
    use librezip::Trace::*;
    match (a, b) {
        (Correct, Correct) | (ActuallyLiteral, ActuallyLiteral) => true,
        (Actually(x), Actually(y)) => same_ref(x, y),
        _ => false,
    }
}
pub fn same_trace(a: &[librezip::Trace], b: &[librezip::Trace]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_entry(x, y))
}
