//! Reference model of DEFLATE, written from RFC 1951: tables, canonical codes, an encoder from
//! abstract blocks to bits, and a three-valued reference decoder.

pub const LEN_BASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
pub const LEN_EXTRA: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
pub const DIST_BASE: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
pub const DIST_EXTRA: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
pub const CL_ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum C {
    L(u8),
    /// alt: length 258 spelled as symbol 284 with extra bits 31
    R { len: u16, dist: u16, alt: bool },
}
pub fn r(dist: u16, len: u16) -> C {
    C::R { len, dist, alt: false }
}

#[derive(Clone, Default, Debug)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub n: usize,
}
impl Bits {
    pub fn bit(&mut self, b: bool) {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.n % 8);
        }
        self.n += 1;
    }
    pub fn val(&mut self, v: u32, n: u32) {
        for i in 0..n {
            self.bit((v >> i) & 1 == 1);
        }
    }
    pub fn code(&mut self, c: (u16, u8)) {
        for i in (0..c.1).rev() {
            self.bit((c.0 >> i) & 1 == 1);
        }
    }
    pub fn align(&mut self) {
        while self.n % 8 != 0 {
            self.bit(false);
        }
    }
    pub fn raw(&mut self, d: &[u8]) {
        assert!(self.n % 8 == 0);
        self.bytes.extend_from_slice(d);
        self.n += d.len() * 8;
    }
}

pub fn len_symbol(len: u16) -> usize {
    if len == 258 {
        return 28;
    }
    (0..28).rev().find(|&i| LEN_BASE[i] <= len).unwrap()
}
pub fn dist_symbol(dist: u16) -> usize {
    (0..30).rev().find(|&i| DIST_BASE[i] <= dist).unwrap()
}

/// RFC 1951 3.2.2
pub fn canon(lens: &[u8]) -> Vec<Option<(u16, u8)>> {
    let mut count = [0u32; 17];
    for &l in lens {
        count[l as usize] += 1;
    }
    count[0] = 0;
    let mut next = [0u32; 17];
    let mut code = 0u32;
    for b in 1..=15 {
        code = (code + count[b - 1]) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|&l| {
            if l == 0 {
                None
            } else {
                let c = next[l as usize];
                next[l as usize] += 1;
                Some((c as u16, l))
            }
        })
        .collect()
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Kraft {
    Complete,
    Under,
    Over,
}
pub fn kraft(lens: &[u8]) -> Kraft {
    let s: u64 = lens.iter().filter(|&&l| l > 0).map(|&l| 1u64 << (15 - l)).sum();
    match s.cmp(&(1 << 15)) {
        std::cmp::Ordering::Equal => Kraft::Complete,
        std::cmp::Ordering::Less => Kraft::Under,
        std::cmp::Ordering::Greater => Kraft::Over,
    }
}

pub fn fixed_lit() -> Vec<u8> {
    let mut v = vec![8u8; 144];
    v.extend([9u8; 112]);
    v.extend([7u8; 24]);
    v.extend([8u8; 8]);
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Copy)]
pub enum Cl {
    Len(u8),
    Rep(u8),  // 16, 3..=6
    Z3(u8),   // 17, 3..=10
    Z11(u8),  // 18, 11..=138
}
impl Cl {
    pub fn sym(&self) -> usize {
        match self {
            Cl::Len(l) => *l as usize,
            Cl::Rep(_) => 16,
            Cl::Z3(_) => 17,
            Cl::Z11(_) => 18,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Cl::Len(_) => 1,
            Cl::Rep(n) | Cl::Z3(n) | Cl::Z11(n) => *n as usize,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Hdr {
    pub hlit: usize,  // 257..=288
    pub hdist: usize, // 1..=32
    pub hclen: usize, // 4..=19
    pub cl_lens: [u8; 19],
    pub items: Vec<Cl>,
}
impl Hdr {
    /// The code lengths the items spell out (may be longer or shorter than asked for).
    pub fn spelled(&self) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        for it in &self.items {
            match *it {
                Cl::Len(l) => v.push(l),
                Cl::Rep(n) => {
                    let p = v.last().cloned().unwrap_or(0);
                    v.extend(vec![p; n as usize]);
                }
                Cl::Z3(n) | Cl::Z11(n) => v.extend(vec![0; n as usize]),
            }
        }
        v
    }
    pub fn lit(&self) -> Vec<u8> {
        self.spelled()[..self.hlit].to_vec()
    }
    pub fn dist(&self) -> Vec<u8> {
        self.spelled()[self.hlit..].to_vec()
    }
    pub fn write(&self, b: &mut Bits) {
        b.val(self.hlit as u32 - 257, 5);
        b.val(self.hdist as u32 - 1, 5);
        b.val(self.hclen as u32 - 4, 4);
        for i in 0..self.hclen {
            b.val(self.cl_lens[CL_ORDER[i]] as u32, 3);
        }
        let codes = canon(&self.cl_lens);
        for it in &self.items {
            let c = codes[it.sym()].expect("code-length symbol has no code");
            b.code(c);
            match *it {
                Cl::Len(_) => {}
                Cl::Rep(n) => b.val(n as u32 - 3, 2),
                Cl::Z3(n) => b.val(n as u32 - 3, 3),
                Cl::Z11(n) => b.val(n as u32 - 11, 7),
            }
        }
    }
}

/// Near-balanced complete code for `k >= 2` symbols.
pub fn balanced(k: usize) -> Vec<u8> {
    assert!(k >= 2);
    let m = (usize::BITS - 1 - k.leading_zeros()) as usize;
    let short = (1usize << (m + 1)) - k;
    (0..k).map(|i| if i < short { m as u8 } else { m as u8 + 1 }).collect()
}
/// 1,2,3,...,k-1,k-1 (k <= 16)
pub fn skewed(k: usize) -> Vec<u8> {
    assert!((2..=16).contains(&k));
    (0..k).map(|i| if i + 1 == k { k as u8 - 1 } else { i as u8 + 1 }).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rle {
    Plain,
    Greedy,
    /// greedy, but zero runs via 16 after a literal 0 where possible
    RepZero,
    /// smallest repeats (3 at a time)
    Small,
}

pub fn rle(lens: &[u8], how: Rle) -> Vec<Cl> {
    let mut v = vec![];
    let mut i = 0;
    while i < lens.len() {
        let l = lens[i];
        let mut n = 1;
        while i + n < lens.len() && lens[i + n] == l {
            n += 1;
        }
        match how {
            Rle::Plain => {
                v.push(Cl::Len(l));
                i += 1;
            }
            Rle::Greedy | Rle::Small => {
                let small = how == Rle::Small;
                if l == 0 && n >= 11 && !small {
                    let k = n.min(138);
                    v.push(Cl::Z11(k as u8));
                    i += k;
                } else if l == 0 && n >= 3 {
                    let k = n.min(if small { 3 } else { 10 });
                    v.push(Cl::Z3(k as u8));
                    i += k;
                } else if i > 0 && lens[i - 1] == l && n >= 3 {
                    let k = n.min(if small { 3 } else { 6 });
                    v.push(Cl::Rep(k as u8));
                    i += k;
                } else {
                    v.push(Cl::Len(l));
                    i += 1;
                }
            }
            Rle::RepZero => {
                if i > 0 && lens[i - 1] == l && n >= 3 {
                    let k = n.min(6);
                    v.push(Cl::Rep(k as u8));
                    i += k;
                } else if l == 0 && n >= 11 {
                    // leave something for 16 to repeat after 17/18
                    let k = if n > 20 { (n - 6).min(138) } else { 11 };
                    v.push(Cl::Z11(k as u8));
                    i += k;
                } else {
                    v.push(Cl::Len(l));
                    i += 1;
                }
            }
        }
    }
    v
}

/// Code-length code for the given items. `all`: give every one of the 19 symbols a code.
pub fn cl_code(items: &[Cl], all: bool) -> ([u8; 19], usize) {
    let mut used: Vec<usize> = if all { (0..19).collect() } else { items.iter().map(|i| i.sym()).collect() };
    used.sort();
    used.dedup();
    if used.len() == 1 {
        used.push(if used[0] == 0 { 1 } else { 0 });
        used.sort();
    }
    let l = balanced(used.len());
    let mut cl = [0u8; 19];
    for (i, &s) in used.iter().enumerate() {
        cl[s] = l[i];
    }
    let hclen = if all { 19 } else { (0..19).rev().find(|&i| cl[CL_ORDER[i]] != 0).unwrap().max(3) + 1 };
    (cl, hclen)
}

pub fn hdr_from_lens(lit: &[u8], dist: &[u8], how: Rle, all_cl: bool) -> Hdr {
    let mut v = lit.to_vec();
    v.extend_from_slice(dist);
    let items = rle(&v, how);
    let (cl_lens, hclen) = cl_code(&items, all_cl);
    Hdr { hlit: lit.len(), hdist: dist.len(), hclen, cl_lens, items }
}

#[derive(Clone, Debug)]
pub enum B {
    Stored(Vec<u8>),
    Fixed(Vec<C>),
    Dyn(Hdr, Vec<C>),
}

pub fn write_codes(b: &mut Bits, lit: &[Option<(u16, u8)>], dist: &[Option<(u16, u8)>], codes: &[C]) {
    for c in codes {
        match *c {
            C::L(x) => b.code(lit[x as usize].expect("literal without code")),
            C::R { len, dist: d, alt } => {
                let ls = if alt { 27 } else { len_symbol(len) };
                b.code(lit[257 + ls].expect("length without code"));
                b.val((len - LEN_BASE[ls]) as u32, LEN_EXTRA[ls] as u32);
                let ds = dist_symbol(d);
                b.code(dist[ds].expect("distance without code"));
                b.val((d - DIST_BASE[ds]) as u32, DIST_EXTRA[ds] as u32);
            }
        }
    }
    b.code(lit[256].expect("no end of block code"));
}

pub fn write_block(b: &mut Bits, blk: &B, last: bool) {
    b.bit(last);
    match blk {
        B::Stored(d) => {
            b.val(0, 2);
            b.align();
            let n = d.len() as u16;
            b.raw(&[n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8]);
            b.raw(d);
        }
        B::Fixed(c) => {
            b.val(1, 2);
            write_codes(b, &canon(&fixed_lit()), &canon(&[5u8; 30]), c);
        }
        B::Dyn(h, c) => {
            b.val(2, 2);
            h.write(b);
            write_codes(b, &canon(&h.lit()), &canon(&h.dist()), c);
        }
    }
}

pub fn write_stream(blocks: &[B]) -> Bits {
    let mut b = Bits::default();
    for (i, x) in blocks.iter().enumerate() {
        write_block(&mut b, x, i + 1 == blocks.len());
    }
    b.align();
    b
}

/// None: a reference reaches before the start of the data.
pub fn expand_codes(out: &mut Vec<u8>, codes: &[C]) -> Option<()> {
    for c in codes {
        match *c {
            C::L(x) => out.push(x),
            C::R { len, dist, .. } => {
                if dist as usize > out.len() {
                    return None;
                }
                for _ in 0..len {
                    out.push(out[out.len() - dist as usize]);
                }
            }
        }
    }
    Some(())
}
pub fn expand(blocks: &[B]) -> Option<Vec<u8>> {
    let mut out = vec![];
    for b in blocks {
        match b {
            B::Stored(d) => out.extend_from_slice(d),
            B::Fixed(c) | B::Dyn(_, c) => expand_codes(&mut out, c)?,
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RB {
    Stored(Vec<u8>),
    Fixed(Vec<C>),
    Dyn(Vec<bool>, Vec<C>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Complete { consumed: usize },
    Truncated,
    Invalid(&'static str),
    Gray(&'static str),
}
#[derive(Debug)]
pub struct Decoded {
    pub blocks: Vec<RB>,
    /// index of the block during which a reference reaches too far back
    pub far: Option<usize>,
    pub out: Vec<u8>,
    pub end: End,
}

struct Rd<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    fn bit(&mut self) -> Result<u32, End> {
        let i = self.p / 8;
        if i >= self.d.len() {
            return Err(End::Truncated);
        }
        let b = (self.d[i] >> (self.p % 8)) & 1;
        self.p += 1;
        Ok(b as u32)
    }
    fn val(&mut self, n: u8) -> Result<u32, End> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
    fn align(&mut self) -> Result<(), End> {
        while self.p % 8 != 0 {
            if self.bit()? != 0 {
                return Err(End::Invalid("padding"));
            }
        }
        Ok(())
    }
}

/// Canonical decoder in the style of "puff": count per length, symbols in order.
pub struct Huff {
    count: [u16; 16],
    sym: Vec<u16>,
}
impl Huff {
    pub fn new(lens: &[u8]) -> Huff {
        let mut count = [0u16; 16];
        for &l in lens {
            count[l as usize] += 1;
        }
        let mut sym = vec![];
        for l in 1..16u8 {
            for (i, &x) in lens.iter().enumerate() {
                if x == l {
                    sym.push(i as u16);
                }
            }
        }
        count[0] = 0;
        Huff { count, sym }
    }
    fn get(&self, r: &mut Rd) -> Result<Option<u16>, End> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16 {
            code |= r.bit()? as i32;
            let c = self.count[l] as i32;
            if code - c < first {
                return Ok(Some(self.sym[(index + (code - first)) as usize]));
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Ok(None)
    }
}

fn dec_codes(rd: &mut Rd, lit: &Huff, dist: Option<&Huff>, codes: &mut Vec<C>) -> Result<(), End> {
    loop {
        let s = match lit.get(rd)? {
            Some(s) => s as usize,
            None => return Err(End::Invalid("unused literal code")),
        };
        if s < 256 {
            codes.push(C::L(s as u8));
            continue;
        }
        if s == 256 {
            return Ok(());
        }
        let s = s - 257;
        if s >= 29 {
            return Err(End::Invalid("reserved length symbol"));
        }
        let len = LEN_BASE[s] + rd.val(LEN_EXTRA[s])? as u16;
        let dist = match dist {
            None => return Err(End::Invalid("length without distance codes")),
            Some(d) => d,
        };
        let ds = match dist.get(rd)? {
            Some(d) => d as usize,
            None => return Err(End::Invalid("unused distance code")),
        };
        if ds >= 30 {
            return Err(End::Invalid("reserved distance symbol"));
        }
        let d = DIST_BASE[ds] as u32 + rd.val(DIST_EXTRA[ds])?;
        codes.push(C::R { len, dist: d as u16, alt: s == 27 && len == 258 });
    }
}

/// A code description: its literal/length and distance code lengths.
fn dec_lens(rd: &mut Rd) -> Result<(Vec<u8>, Vec<u8>), End> {
    let hlit = rd.val(5)? as usize + 257;
    let hdist = rd.val(5)? as usize + 1;
    let hclen = rd.val(4)? as usize + 4;
    let mut cl = [0u8; 19];
    for i in 0..hclen {
        cl[CL_ORDER[i]] = rd.val(3)? as u8;
    }
    if kraft(&cl) != Kraft::Complete {
        return Err(End::Invalid("code-length code set"));
    }
    let h = Huff::new(&cl);
    let mut lens: Vec<u8> = vec![];
    while lens.len() < hlit + hdist {
        let s = match h.get(rd)? {
            Some(s) => s,
            None => return Err(End::Invalid("unused code-length code")),
        };
        match s {
            0..=15 => lens.push(s as u8),
            16 => {
                let p = match lens.last() {
                    Some(&p) => p,
                    None => return Err(End::Invalid("nothing to repeat")),
                };
                let n = 3 + rd.val(2)? as usize;
                lens.extend(vec![p; n]);
            }
            17 => {
                let n = 3 + rd.val(3)? as usize;
                lens.extend(vec![0; n]);
            }
            _ => {
                let n = 11 + rd.val(7)? as usize;
                lens.extend(vec![0; n]);
            }
        }
    }
    if lens.len() > hlit + hdist {
        return Err(End::Invalid("repeat past the end"));
    }
    let dist = lens.split_off(hlit);
    Ok((lens, dist))
}

/// What RFC 1951 says about a pair of length sets; Ok(false): there are no distance codes.
fn judge_lens(lit: &[u8], dist: &[u8]) -> Result<bool, End> {
    if lit.len() > 286 {
        return Err(End::Gray("more than 286 literal/length codes"));
    }
    if kraft(lit) != Kraft::Complete {
        return Err(End::Invalid("literal code set"));
    }
    let used: Vec<usize> = (0..dist.len()).filter(|&i| dist[i] != 0).collect();
    if dist.len() == 1 && dist[0] == 0 {
        return Ok(false);
    }
    if used.is_empty() {
        return Err(End::Gray("several distance codes, all absent"));
    }
    if used.len() == 1 && dist[used[0]] == 1 {
        if used[0] >= 30 {
            return Err(End::Gray("single distance code is a reserved one"));
        }
    } else if kraft(dist) != Kraft::Complete {
        return Err(End::Invalid("distance code set"));
    }
    Ok(true)
}

/// A description that must be exactly these bits: the two length sets and what is to be said about them.
pub fn description(bits: &[bool]) -> (Vec<u8>, Vec<u8>, Result<(), End>) {
    let mut b = Bits::default();
    bits.iter().for_each(|&x| b.bit(x));
    // bits past the end of the description, within the last byte, are not its own
    let mut rd = Rd { d: &b.bytes, p: 0 };
    match dec_lens(&mut rd) {
        Err(e) => (vec![], vec![], Err(e)),
        Ok(_) if rd.p > bits.len() => (vec![], vec![], Err(End::Truncated)),
        Ok(_) if rd.p < bits.len() => (vec![], vec![], Err(End::Invalid("bits after the description"))),
        Ok((l, d)) => {
            let r = judge_lens(&l, &d).map(|_| ());
            (l, d, r)
        }
    }
}

fn dec_block(rd: &mut Rd) -> Result<RB, End> {
    match rd.val(2)? {
        0 => {
            rd.align()?;
            let b = rd.p / 8;
            if b + 4 > rd.d.len() {
                return Err(End::Truncated);
            }
            let n = rd.d[b] as usize | (rd.d[b + 1] as usize) << 8;
            let m = rd.d[b + 2] as usize | (rd.d[b + 3] as usize) << 8;
            if n ^ 0xffff != m {
                return Err(End::Invalid("stored length check"));
            }
            if b + 4 + n > rd.d.len() {
                return Err(End::Truncated);
            }
            rd.p = (b + 4 + n) * 8;
            Ok(RB::Stored(rd.d[b + 4..b + 4 + n].to_vec()))
        }
        1 => {
            thread_local! {
                static FIX: (Huff, Huff) = (Huff::new(&fixed_lit()), Huff::new(&[5u8; 32]));
            }
            let mut c = vec![];
            FIX.with(|f| dec_codes(rd, &f.0, Some(&f.1), &mut c))?;
            Ok(RB::Fixed(c))
        }
        2 => {
            let start = rd.p;
            let (lit, dist) = dec_lens(rd)?;
            let trees: Vec<bool> = (start..rd.p).map(|i| (rd.d[i / 8] >> (i % 8)) & 1 == 1).collect();
            let dh = if judge_lens(&lit, &dist)? { Some(Huff::new(&dist)) } else { None };
            let mut c = vec![];
            dec_codes(rd, &Huff::new(&lit), dh.as_ref(), &mut c)?;
            Ok(RB::Dyn(trees, c))
        }
        _ => Err(End::Invalid("reserved block type")),
    }
}

pub fn decode(d: &[u8]) -> Decoded {
    let mut rd = Rd { d, p: 0 };
    let mut blocks = vec![];
    let end = loop {
        let last = match rd.bit() {
            Ok(b) => b == 1,
            Err(e) => break e,
        };
        match dec_block(&mut rd) {
            Ok(b) => blocks.push(b),
            Err(e) => break e,
        }
        if last {
            break match rd.align() {
                Ok(()) => End::Complete { consumed: rd.p / 8 },
                Err(e) => e,
            };
        }
    };
    let mut out = vec![];
    let mut far = None;
    for (i, b) in blocks.iter().enumerate() {
        let okk = match b {
            RB::Stored(d) => {
                out.extend_from_slice(d);
                Some(())
            }
            RB::Fixed(c) | RB::Dyn(_, c) => expand_codes(&mut out, c),
        };
        if okk.is_none() {
            far = Some(i);
            break;
        }
    }
    Decoded { blocks, far, out, end }
}

pub fn to_rb(b: &B) -> RB {
    match b {
        B::Stored(d) => RB::Stored(d.clone()),
        B::Fixed(c) => RB::Fixed(c.clone()),
        B::Dyn(h, c) => {
            let mut bits = Bits::default();
            h.write(&mut bits);
            RB::Dyn((0..bits.n).map(|i| (bits.bytes[i / 8] >> (i % 8)) & 1 == 1).collect(), c.clone())
        }
    }
}

pub fn hex(d: &[u8]) -> String {
    if d.len() > 200 {
        return format!("{}..({} bytes)", d[..96].iter().map(|b| format!("{:02x}", b)).collect::<String>(), d.len());
    }
    d.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn crc32(d: &[u8]) -> u32 {
    thread_local! {
        static T: [u32; 256] = {
            let mut t = [0u32; 256];
            for i in 0..256u32 {
                let mut c = i;
                for _ in 0..8 {
                    c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
                }
                t[i as usize] = c;
            }
            t
        };
    }
    T.with(|t| !d.iter().fold(!0u32, |c, &b| t[((c ^ b as u32) & 0xff) as usize] ^ (c >> 8)))
}
