//! Reference model of the match search and of the guesser, written from the published rules:
//! hash chains over 3-byte keys, nearest first, chain limit, nice length, insert limit, lazy drop of
//! far 3-byte matches, and the three-position lookahead of the 'spicy' technique.
use crate::deflate::C;

pub fn hash3(b: &[u8]) -> u16 {
    ((((b[0] as u32) << 10) ^ ((b[1] as u32) << 5) ^ b[2] as u32) & 0x7fff) as u16
}

fn hidden(obscured: &[(usize, u16)], off: usize) -> bool {
    obscured.iter().any(|&(s, l)| off > s && off < s + l as usize)
}

pub fn run_at(all: &[u8], off: usize, pos: usize) -> u16 {
    let mut n = 0;
    while n < 258 && pos + n < all.len() && all[off + n] == all[pos + n] {
        n += 1;
    }
    n as u16
}

/// Candidates as (distance, length), nearest first. None: fewer than three bytes left.
/// `chain` is the number of chain entries that may be looked at.
pub fn candidates(all: &[u8], pos: usize, chain: usize, obscured: &[(usize, u16)]) -> Option<Vec<(u16, u16)>> {
    candidates_with(all, pos, chain, usize::MAX, &|off| hidden(obscured, off))
}
/// At most the `most` nearest of them, and which positions are inside an obscured run.
pub fn candidates_with(all: &[u8], pos: usize, chain: usize, most: usize, hidden: &dyn Fn(usize) -> bool) -> Option<Vec<(u16, u16)>> {
    if pos + 2 >= all.len() {
        return None;
    }
    let h = hash3(&all[pos..]);
    let mut seen = 0;
    let mut v = vec![];
    let mut off = pos;
    while off > 1 {
        off -= 1;
        if hash3(&all[off..]) != h || hidden(off) {
            continue;
        }
        if seen == chain || v.len() == most || pos - off > 32768 {
            break;
        }
        seen += 1;
        let run = run_at(all, off, pos);
        if run >= 3 {
            v.push(((pos - off) as u16, run));
        }
    }
    Some(v)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    pub chain_all: usize,
    pub chain: usize,
    pub nice: u16,
    pub insert: Option<u16>,
    pub drop_far: bool,
    pub three: bool,
}

/// gzip's table (deflate.c of gzip 1.x / zlib), one row per level: nice length, chain, insert limit.
pub const TABLE: [(u16, usize, Option<u16>); 9] =
    [(8, 4, Some(4)), (16, 8, Some(5)), (32, 32, Some(6)), (16, 16, None), (32, 32, None), (128, 128, None), (128, 256, None), (258, 1024, None), (258, 4096, None)];

impl Params {
    pub fn gzip(level: u8) -> Params {
        let (nice, chain, insert) = TABLE[level as usize - 1];
        Params { chain_all: insert.map(|x| x as usize).unwrap_or(65535), chain, nice, insert, drop_far: level >= 4, three: false }
    }
    pub fn spicy() -> Params {
        Params { drop_far: true, three: true, ..Params::gzip(9) }
    }
    pub fn limit(self, n: usize) -> Params {
        Params { chain_all: n, ..self }
    }
}

pub struct Guess<'a> {
    pub all: &'a [u8],
    pub p: Params,
    pub pos: usize,
    pub obscured: Vec<(usize, u16)>,
    /// by position: strictly inside one of them
    inside: Vec<bool>,
}

impl<'a> Guess<'a> {
    pub fn new(all: &'a [u8], start: usize, p: Params) -> Self {
        Guess { all, p, pos: start, obscured: vec![], inside: vec![false; all.len() + 258] }
    }
    fn best(&self, pos: usize) -> Option<(u16, u16)> {
        let c = candidates_with(self.all, pos, self.p.chain_all, self.p.chain, &|off| self.inside[off])?;
        let mut best: Option<(u16, u16)> = None;
        for &(d, l) in c.iter().take(self.p.chain) {
            if best.map(|b| l > b.1).unwrap_or(true) {
                best = Some((d, l));
            }
            if l >= self.p.nice {
                break;
            }
        }
        best.filter(|&(d, l)| !(self.p.drop_far && l == 3 && d > 4096))
    }
    pub fn predict(&self) -> Vec<C> {
        let p = self.pos;
        let lit = |i: usize| C::L(self.all[p + i]);
        let rf = |(d, l): (u16, u16)| C::R { len: l, dist: d, alt: false };
        let b0 = match self.best(p) {
            None => return vec![lit(0)],
            Some(b) => b,
        };
        if !self.p.three || b0.1 > 3 {
            return vec![rf(b0)];
        }
        let b1 = self.best(p + 1).filter(|x| x.1 > 3);
        let b2 = self.best(p + 2).filter(|x| x.1 > 4);
        match (b1, b2) {
            (Some(a), Some(b)) if b.1 > a.1 => vec![lit(0), lit(1), rf(b)],
            (Some(a), _) => vec![lit(0), rf(a)],
            (None, Some(b)) => vec![lit(0), lit(1), rf(b)],
            (None, None) => vec![rf(b0)],
        }
    }
    pub fn feed(&mut self, c: &C) {
        match *c {
            C::L(_) => self.pos += 1,
            C::R { len, .. } => {
                if let Some(l) = self.p.insert {
                    if len > l {
                        self.obscured.push((self.pos, len));
                        self.inside[self.pos + 1..self.pos + len as usize].fill(true);
                    }
                }
                self.pos += len as usize;
            }
        }
    }
    pub fn more(&self) -> bool {
        self.pos < self.all.len()
    }
}
