//! C15-C17: the history buffer, the bit containers and the hashing filters.
use crate::deflate::hex;
use crate::engine::*;
use crate::env::{EnvRead, EnvWrite, Mode, ALL_KINDS};
use crate::{stage, Stage, Tier};
use librezip::verif_hooks::{BitReader, BitVec, BitWriter};
use librezip::{filter, CircularBuffer};
use sha2::Digest;
use std::cell::RefCell;
use std::io::{self, Read, Write};

pub fn stages(id: &str, t: Tier) -> Vec<Stage> {
    match id {
        "C15" => c15(t),
        "C16" => c16(t),
        "C17" => c17(t),
        _ => vec![],
    }
}

fn fnv(d: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in d {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- C15

struct Ring {
    buf: CircularBuffer,
    cap: usize,
    /// everything ever put in
    all: Vec<u8>,
    next: u32,
    steps: u64,
}

impl Ring {
    fn new(buf: CircularBuffer, cap: usize) -> Result<Ring, String> {
        if buf.capacity() as usize != cap {
            return Err(format!("capacity() is {} instead of {}", buf.capacity(), cap));
        }
        Ok(Ring { buf, cap, all: vec![], next: 0, steps: 0 })
    }
    fn held(&self) -> usize {
        self.all.len().min(self.cap)
    }
    fn fresh(&mut self) -> u8 {
        // no period shorter than 65521 * 251 bytes
        self.next += 1;
        ((self.next % 251) ^ (self.next / 251 % 241)) as u8
    }
    fn push(&mut self) {
        let b = self.fresh();
        self.buf.push(b);
        self.all.push(b);
        self.steps += 1;
    }
    fn extend(&mut self, n: usize) {
        let v: Vec<u8> = (0..n).map(|_| self.fresh()).collect();
        self.buf.extend(&v);
        self.all.extend_from_slice(&v);
        self.steps += 1;
    }
    fn copy(&mut self, dist: u16, len: u16) -> Result<(), String> {
        let mut out = vec![];
        self.steps += 1;
        let r = self.buf.copy(dist, len, &mut out);
        let fits = dist >= 1 && dist as usize <= self.held();
        if fits != r.is_ok() {
            return Err(format!("copy({}, {}) with {} bytes held: {}", dist, len, self.held(), if fits { "refused" } else { "accepted" }));
        }
        if !fits {
            return if out.is_empty() { Ok(()) } else { Err(format!("refused copy({}, {}) wrote {} bytes", dist, len, out.len())) };
        }
        let at = self.all.len();
        for _ in 0..len {
            self.all.push(self.all[self.all.len() - dist as usize]);
        }
        if out != self.all[at..] {
            return Err(format!("copy({}, {}) wrote {}, expected {}", dist, len, hex(&out[..out.len().min(64)]), hex(&self.all[at..(at + 64).min(self.all.len())])));
        }
        Ok(())
    }
    fn agree(&self, every: bool) -> Result<(), String> {
        let h = self.held();
        if self.buf.len() as usize != h {
            return Err(format!("len() is {}, {} bytes should be held", self.buf.len(), h));
        }
        if self.buf.capacity() as usize != self.cap {
            return Err("capacity() changed".into());
        }
        let tail = &self.all[self.all.len() - h..];
        let v = guarded(|| self.buf.vec()).map_err(|p| format!("vec() with {} of {} bytes held: {}", h, self.cap, p))?;
        if v != tail {
            let i = v.iter().zip(tail).position(|(a, b)| a != b);
            return Err(format!("vec() of {} bytes (expected {}) differs first at {:?}", v.len(), h, i));
        }
        let probe = |d: usize| {
            let g = self.buf.get_at_dist(d as u16);
            if g != tail[h - d] {
                return Err(format!("get_at_dist({}) is {:02x}, expected {:02x}, with {} of {} bytes held", d, g, tail[h - d], h, self.cap));
            }
            Ok(())
        };
        if every {
            (1..=h).try_for_each(probe)
        } else {
            [1, 2, 3, h / 2, h.wrapping_sub(2), h.wrapping_sub(1), h].into_iter().filter(|d| (1..=h).contains(d)).try_for_each(probe)
        }
    }
}

fn c15(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Push,
        Extend(usize),
        Copy(u16, u16),
    }
    fn apply(r: &mut Ring, op: Op) -> Result<(), String> {
        match op {
            Op::Push => r.push(),
            Op::Extend(n) => r.extend(n),
            Op::Copy(d, l) => r.copy(d, l)?,
        }
        Ok(())
    }
    fn ctx(cap: usize, hist: &[Op], op: Op, e: String) -> String {
        format!("capacity {} after {:?} then {:?}: {}", cap, hist, op, e)
    }
    fn run(ch: &Ch, cap: usize, make: impl Fn() -> CircularBuffer, menu: &dyn Fn(usize) -> Vec<Op>, start: &[Op], depth: usize, every: bool) -> Result<Out, String> {
        let mut hist: Vec<Op> = vec![];
        let mut r = Ring::new(make(), cap)?;
        r.agree(every)?;
        for &op in start {
            apply(&mut r, op).and_then(|_| r.agree(every)).map_err(|e| ctx(cap, &hist, op, e))?;
            hist.push(op);
        }
        for _ in 0..depth.saturating_sub(1) {
            let m = menu(r.held());
            let op = m[ch.pick(m.len())];
            apply(&mut r, op).map_err(|e| ctx(cap, &hist, op, e))?;
            // intermediate states are final states of shorter histories, which the last level covers
            hist.push(op);
        }
        ch.note(|| format!("capacity {} operations {:?} then each of the menu", cap, hist));
        // the last operation: each one, from a freshly rebuilt state
        let last = menu(r.held());
        let n = last.len() as u64;
        let mut h = 0;
        let mut r = Some(r);
        for op in last {
            let mut q = match r.take() {
                Some(q) => q,
                None => {
                    let mut q = Ring::new(make(), cap)?;
                    for &o in &hist {
                        apply(&mut q, o).map_err(|e| ctx(cap, &hist, o, e))?;
                    }
                    q
                }
            };
            apply(&mut q, op).and_then(|_| q.agree(every)).map_err(|e| ctx(cap, &hist, op, e))?;
            h = mixh(h, fnv(&q.all[q.all.len() - q.held()..]) ^ (q.all.len() % cap.max(1)) as u64);
        }
        ch.inner(n, n * (hist.len() as u64 + 1));
        ok("agrees", h)
    }
    fn mixh(a: u64, b: u64) -> u64 {
        (a.rotate_left(17) ^ b).wrapping_mul(0x9e3779b97f4a7c15)
    }
    let full_menu = |cap: usize| {
        move |held: usize| {
            let mut m = vec![Op::Push];
            for n in [0, 1, 2, cap - 1, cap, cap + 1, 2 * cap + 1] {
                m.push(Op::Extend(n));
            }
            for d in (0..=held + 1).chain([cap, cap + 1, 32768, 65535]) {
                for l in [0, 1, 2, 3, cap, cap + 1, 3 * cap + 2] {
                    m.push(Op::Copy(d as u16, l as u16));
                }
            }
            m.dedup_by_key(|o| format!("{:?}", o));
            m
        }
    };
    let tight_menu = |cap: usize| {
        move |held: usize| {
            let mut m = vec![Op::Push, Op::Extend(2), Op::Extend(cap)];
            for d in [1, 2, held / 2 + 1, held, held + 1] {
                for l in [1, 3] {
                    m.push(Op::Copy(d as u16, l));
                }
            }
            m
        }
    };
    let d_full = if th { 4 } else { 3 };
    let d_tight = if th { 7 } else { 5 };
    let mut v = vec![
        stage("small-full", 0, "capacities 1 to 6, every sequence of 3 (thorough 4) operations from a menu of every distance and boundary lengths", move |ch| {
            let cap = 1 + ch.pick(6);
            run(ch, cap, || CircularBuffer::with_capacity(cap as u16), &full_menu(cap), &[], d_full, true)
        }),
        stage("small-deep", 0, "capacities 1 to 5 and 8, every sequence of 5 (thorough 7) operations from a boundary menu", move |ch| {
            let cap = *ch.of(&[1usize, 2, 3, 4, 5, 8]);
            run(ch, cap, || CircularBuffer::with_capacity(cap as u16), &tight_menu(cap), &[], d_tight, true)
        }),
        stage("every-capacity", 0, "every capacity 1 to 65535 (quick: 1 to 600, powers of two and their neighbours, 65535): filled to one byte short, exactly, and past, then read back by distance and as a whole, then copied from the far end", move |ch| {
            let caps: Vec<usize> = if th {
                (1..=65535).collect()
            } else {
                let mut v: Vec<usize> = (1..=600).collect();
                for p in 10..=16 {
                    v.extend([(1usize << p) - 1, (1 << p).min(65535), ((1 << p) + 1).min(65535), ((1 << p) + (1 << (p - 1))).min(65535)]);
                }
                v.sort();
                v.dedup();
                v
            };
            let cap = *ch.of(&caps);
            let step = |r: &mut Ring, op: Op| apply(r, op).and_then(|_| r.agree(cap <= 600)).map_err(|e| ctx(cap, &[], op, e));
            let mut r = Ring::new(CircularBuffer::with_capacity(cap as u16), cap)?;
            step(&mut r, Op::Extend(cap - 1))?;
            step(&mut r, Op::Push)?;
            step(&mut r, Op::Copy(cap as u16, 1))?;
            step(&mut r, Op::Push)?;
            step(&mut r, Op::Copy(cap as u16, 7))?;
            if cap < 65535 {
                step(&mut r, Op::Copy(cap as u16 + 1, 1))?;
            }
            step(&mut r, Op::Copy(((cap + 1) / 2) as u16, 258))?;
            ok("agrees", cap as u64)
        }),
    ];
    let big_menu = |held: usize| {
        let mut m = vec![Op::Push, Op::Extend(300)];
        for d in [1, 2, 257, 258, 259, 1000, held.wrapping_sub(1), held, held + 1, 65535] {
            for l in [1, 3, 258] {
                if d <= 65535 && d > 0 {
                    m.push(Op::Copy(d as u16, l));
                }
            }
        }
        m
    };
    v.push(stage("large", 0, "capacities 32767, 32768, 40000, 65534, 65535, the standard and the default buffer, filled to 0, 1, capacity-300, -2, -1, 0, +1, +2 and twice the capacity: every sequence of 2 (thorough 3) operations", move |ch| {
        let kind = ch.pick(7);
        let make = move || match kind {
            0 => CircularBuffer::with_capacity(32767),
            1 => CircularBuffer::with_capacity(32768),
            2 => CircularBuffer::with_capacity(40000),
            3 => CircularBuffer::with_capacity(65534),
            4 => CircularBuffer::with_capacity(65535),
            5 => CircularBuffer::new(),
            _ => CircularBuffer::default(),
        };
        let cap = match kind {
            5 => 32768,
            6 => make().capacity() as usize,
            k => [32767, 32768, 40000, 65534, 65535][k],
        };
        if cap == 0 {
            return Err("the default buffer has no capacity: it can hold nothing".into());
        }
        let fill = *ch.of(&[0, 1, cap - 300.min(cap - 1), cap - 2, cap - 1, cap, cap + 1, cap + 2, 2 * cap]);
        run(ch, cap, make, &big_menu, &[Op::Extend(fill)], if th { 3 } else { 2 }, false)
    }));
    v.push(stage("total", 0, "capacities from 1 to 65535 after all in all 65536, 131072, 1 MiB and 16 MiB (thorough 2 GiB and 4 GiB) bytes, one byte less or more, pushed one by one, in pieces, or copied: everything held, then copies", move |ch| {
        let mut totals: Vec<u64> = vec![1 << 16, 1 << 17, 1 << 20, 1 << 24];
        if th {
            totals.extend([1 << 31, 1 << 32]);
        }
        let total = *ch.of(&totals);
        let total = total - 1 + ch.pick(3) as u64;
        let cap = *ch.of(if total > 1 << 25 { &[32768usize, 65535][..] } else { &[1usize, 2, 3, 256, 1000, 32767, 32768, 65535][..] });
        let how = ch.pick(if total > 1 << 25 { 2 } else { 3 });
        let mut r = Ring::new(CircularBuffer::with_capacity(cap as u16), cap)?;
        let block: Vec<u8> = {
            r.extend(65521);
            r.all.clone()
        };
        let mut done = block.len() as u64;
        while done < total {
            let n = (total - done).min(block.len() as u64) as usize;
            match how {
                0 => r.buf.extend(&block[..n]),
                1 => block[..n].iter().for_each(|&b| r.buf.push(b)),
                _ => {
                    let mut left = n;
                    while left > 0 {
                        let d = cap.min(32768).min(777);
                        let k = left.min(60000);
                        r.copy(d as u16, k as u16)?;
                        left -= k;
                    }
                }
            }
            if how < 2 {
                r.all.extend_from_slice(&block[..n]);
            }
            done += n as u64;
            if r.all.len() > 1 << 18 {
                r.all.drain(..r.all.len() - 70000);
            }
        }
        let ctx2 = |e: String| format!("capacity {} after {} bytes: {}", cap, total, e);
        r.agree(true).map_err(ctx2)?;
        for op in [Op::Copy(cap as u16, 3), Op::Push, Op::Copy(1, 258), Op::Copy(((cap + 1) / 2) as u16, 258), Op::Extend(5)] {
            apply(&mut r, op).and_then(|_| r.agree(false)).map_err(ctx2)?;
        }
        ok("agrees", mix(total, cap as u64))
    }));
    v
}

// ---------------------------------------------------------------- C16

fn bits_of(v: &BitVec) -> Vec<bool> {
    v.iter().collect()
}
fn show(b: &[bool]) -> String {
    b.iter().map(|&x| if x { '1' } else { '0' }).collect()
}

fn same_vec(v: &BitVec, m: &[bool]) -> Result<(), String> {
    if v.len() != m.len() {
        return Err(format!("len() {} instead of {}", v.len(), m.len()));
    }
    if v.is_empty() != m.is_empty() {
        return Err(format!("is_empty() is {} with {} bits", v.is_empty(), m.len()));
    }
    for (i, &b) in m.iter().enumerate() {
        if v.get(i) != b {
            return Err(format!("get({}) is wrong in {}", i, show(m)));
        }
    }
    if bits_of(v) != m {
        return Err(format!("iteration gives {} instead of {}", show(&bits_of(v)), show(m)));
    }
    // the same bits, put together another way
    let mut fresh = BitVec::new();
    for &b in m {
        fresh.push(b);
    }
    if !(fresh == *v && *v == fresh) {
        return Err(format!("not equal to a fresh vector of the same bits {}", show(m)));
    }
    if v.clone() != *v {
        return Err("not equal to its own clone".into());
    }
    if format!("{:?}", v) != format!("BitVec: {}: {}", m.len(), show(m)) {
        return Err(format!("shown as {:?}", v));
    }
    // different bits are different
    for i in [0, m.len() / 2, m.len().saturating_sub(1)] {
        if i < m.len() {
            let mut other = BitVec::new();
            for (j, &b) in m.iter().enumerate() {
                other.push(b ^ (j == i));
            }
            if other == *v {
                return Err(format!("equal to a vector that differs at bit {}", i));
            }
        }
    }
    let mut longer = fresh;
    longer.push(false);
    if longer == *v {
        return Err("equal to a vector with one more bit".into());
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum W {
    Bit(bool),
    Val(u8, u16),
    Vec(Vec<bool>),
    Align,
    Stored(Vec<u8>),
}
fn w_menu() -> Vec<W> {
    let mut v = vec![W::Bit(false), W::Bit(true), W::Align];
    for n in [0u8, 1, 2, 3, 5, 7, 8, 9, 13, 15, 16] {
        for x in [0u16, 1, 0x5a5a, 0x8000, 0xffff] {
            v.push(W::Val(n, x));
        }
    }
    for n in [0usize, 1, 7, 8, 9, 17] {
        v.push(W::Vec((0..n).map(|i| i % 3 != 1).collect()));
    }
    for n in [0usize, 1, 2, 255, 256, 300] {
        v.push(W::Stored((0..n).map(|i| (i * 37 + 11) as u8).collect()));
    }
    v
}
fn w_model(m: &mut Vec<bool>, op: &W) {
    let byte = |m: &mut Vec<bool>, b: u8| (0..8).for_each(|i| m.push(b >> i & 1 == 1));
    match op {
        W::Bit(b) => m.push(*b),
        W::Val(n, x) => (0..*n).for_each(|i| m.push(x >> i & 1 == 1)),
        W::Vec(v) => m.extend(v),
        W::Align => {
            while m.len() % 8 != 0 {
                m.push(false)
            }
        }
        W::Stored(d) => {
            w_model(m, &W::Align);
            let n = d.len() as u16;
            for x in [n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8] {
                byte(m, x);
            }
            for &x in d {
                byte(m, x);
            }
        }
    }
}
fn pack(m: &[bool]) -> Vec<u8> {
    m.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &b)| a | (b as u8) << i)).collect()
}

fn c16(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    fn vec_ops(ch: &Ch, mut v: BitVec, mut m: Vec<bool>, depth: usize) -> Result<Out, String> {
        let mut hist = String::new();
        let at = |h: &str, e: String| format!("after [{}]: {}", h, e);
        same_vec(&v, &m)?;
        hist += &format!("{} bits {}; ", m.len(), show(&m));
        for _ in 0..depth {
            match ch.pick(4) {
                0 => {
                    v.push(false);
                    m.push(false);
                    hist += "push 0, ";
                }
                1 => {
                    v.push(true);
                    m.push(true);
                    hist += "push 1, ";
                }
                2 => {
                    hist += "pop, ";
                    let g = v.pop();
                    if g != m.pop() {
                        return Err(at(&hist, format!("pop() gave {:?}", g)));
                    }
                }
                _ => {
                    hist += "pop_byte, ";
                    let want = if m.len() < 8 {
                        None
                    } else {
                        let tail = m.split_off(m.len() - 8);
                        Some(pack(&tail)[0])
                    };
                    let g = v.pop_byte();
                    if g != want {
                        return Err(at(&hist, format!("pop_byte() gave {:?} instead of {:?}", g, want)));
                    }
                }
            }
            same_vec(&v, &m).map_err(|e| at(&hist, e))?;
        }
        ch.note(|| hist.clone());
        ok("agrees", fnv(&m.iter().map(|&b| b as u8).collect::<Vec<_>>()))
    }
    fn start(ch: &Ch, max: usize) -> Vec<bool> {
        let n = ch.pick(max + 1);
        let p = ch.pick(4);
        (0..n)
            .map(|i| match p {
                0 => true,
                1 => false,
                2 => i % 2 == 0,
                _ => i % 5 < 2,
            })
            .collect()
    }
    let d_empty = if th { 11 } else { 9 };
    let d_start = if th { 7 } else { 5 };
    let wd = if th { 4 } else { 3 };
    vec![
        stage("vec-from-empty", 0, "every sequence of up to 9 (thorough 11) pushes, pops and byte pops from an empty vector", move |ch| {
            vec_ops(ch, BitVec::new(), vec![], d_empty)
        }),
        stage("vec-from-bits", 0, "the same, 5 (thorough 7) operations, starting from 0 to 33 bits in four patterns", move |ch| {
            let m = start(ch, 33);
            let mut v = BitVec::default();
            m.iter().for_each(|&b| v.push(b));
            vec_ops(ch, v, m, d_start)
        }),
        stage("vec-long", 0, "vectors of 63 to 65537 (thorough 1 MiBit) bits in four patterns, then every sequence of 3 (thorough 4; over 2000 bits 1, thorough 3) pushes, pops and byte pops; and emptied bit by bit or byte by byte", move |ch| {
            let mut ns = vec![63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025];
            ns.extend([2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537]);
            if th {
                ns.extend([131071, 131072, 131073, 1 << 18, (1 << 20) + 3]);
            }
            let n = *ch.of(&ns);
            let p = ch.pick(4);
            let bit = |i: usize| match p {
                0 => true,
                1 => false,
                2 => i % 2 == 0,
                _ => i % 7 < 3,
            };
            let mut m: Vec<bool> = (0..n).map(bit).collect();
            let mut v = BitVec::new();
            m.iter().for_each(|&b| v.push(b));
            match ch.pick(3) {
                0 => vec_ops(ch, v, m, if th && n < 2000 { 4 } else if n < 2000 || th && n < 70000 { 3 } else { 1 }),
                1 => {
                    while let Some(b) = m.pop() {
                        let g = v.pop();
                        if g != Some(b) || v.len() != m.len() {
                            return Err(format!("pop() from {} bits gave {:?}, leaving {}", m.len() + 1, g, v.len()));
                        }
                        if (m.len() < 70 || m.len() % (if n > 2000 { 3001 } else { 61 }) == 0) && bits_of(&v) != m {
                            return Err(format!("after popping down to {} bits the contents differ", m.len()));
                        }
                    }
                    same_vec(&v, &m)?;
                    ok("emptied", mix(n as u64, p as u64))
                }
                _ => {
                    while m.len() >= 8 {
                        let want = pack(&m.split_off(m.len() - 8))[0];
                        let g = v.pop_byte();
                        if g != Some(want) || v.len() != m.len() || (m.len() < 2000 || m.len() % 61 == 0) && bits_of(&v) != m {
                            return Err(format!("pop_byte() down to {} bits gave {:?} instead of {:?}", m.len(), g, want));
                        }
                    }
                    same_vec(&v, &m)?;
                    ok("emptied", mix(n as u64, p as u64))
                }
            }
        }),
        stage("write-long", 0, "a thousand (thorough 20000) writer operations in a row from each starting point and stride through the menu, compared with the model and read back", move |ch| {
            let menu: Vec<W> = w_menu().into_iter().filter(|o| !matches!(o, W::Stored(d) if d.len() > 2)).collect();
            let from = ch.pick(menu.len());
            let step = *ch.of(&[0usize, 1, 5, 7, 11]);
            let count = if th { 20000 } else { 1000 };
            let mut m = vec![];
            let mut w = BitWriter::new(vec![]);
            for i in 0..count {
                let op = &menu[(from + i * step) % menu.len()];
                w_model(&mut m, op);
                let r = match op {
                    W::Bit(b) => w.write_bit(*b).map_err(|e| e.to_string()),
                    W::Val(n, x) => w.write_bits_val(*n, *x).map_err(|e| e.to_string()),
                    W::Vec(v) => {
                        let mut bv = BitVec::new();
                        v.iter().for_each(|&b| bv.push(b));
                        w.write_vec(&bv).map_err(|e| e.to_string())
                    }
                    W::Align => w.align().map_err(|e| e.to_string()),
                    W::Stored(d) => w.write_length_prefixed(d).map_err(|e| e.to_string()),
                };
                r.map_err(|e| format!("operation {} {:?}: {}", i, op, e))?;
            }
            w_model(&mut m, &W::Align);
            w.align().map_err(|e| e.to_string())?;
            let out = w.into_inner();
            if out != pack(&m) {
                return Err(format!("from operation {} by {}: output differs at byte {}", from, step, out.iter().zip(pack(&m)).position(|(a, b)| *a != b).unwrap_or(out.len())));
            }
            ok("agrees", mix(fnv(&out), out.len() as u64))
        }),
        stage("vec-from-bytes", 0, "the same, 5 (thorough 7) operations, starting from a vector made of 0 to 3 whole bytes", move |ch| {
            let n = ch.pick(4);
            let b: Vec<u8> = (0..n).map(|_| *ch.of(&[0u8, 0xff, 0x5a, 0x80])).collect();
            let m: Vec<bool> = b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect();
            vec_ops(ch, BitVec::from_slice(&b), m, d_start)
        }),
        stage("write-read", 0, "every sequence of 3 (thorough 4) writer operations out of 72 at every starting alignment, padded, compared with the model, then read back operation by operation", move |ch| {
            let menu = w_menu();
            let mut ops: Vec<W> = vec![W::Val(ch.pick(8) as u8, 0x55)];
            for _ in 0..wd - 1 {
                ops.push(ch.of(&menu).clone());
            }
            ch.note(|| format!("{:?} then each of the menu", ops));
            let mut h = 0;
            for last in &menu {
                let mut m = vec![];
                let mut w = BitWriter::new(vec![]);
                let e = |e: anyhow_like::E| format!("{:?} {:?}: {}", ops, last, e);
                for op in ops.iter().chain([last, &W::Align]) {
                    w_model(&mut m, op);
                    match op {
                        W::Bit(b) => w.write_bit(*b).map_err(|x| e(x.to_string()))?,
                        W::Val(n, x) => w.write_bits_val(*n, *x).map_err(|x| e(x.to_string()))?,
                        W::Vec(b) => {
                            let mut v = BitVec::new();
                            b.iter().for_each(|&x| v.push(x));
                            w.write_vec(&v).map_err(|x| e(x.to_string()))?
                        }
                        W::Align => w.align().map_err(|x| e(x.to_string()))?,
                        W::Stored(d) => w.write_length_prefixed(d).map_err(|x| e(x.to_string()))?,
                    }
                }
                let got = w.into_inner();
                if got != pack(&m) {
                    return Err(format!("{:?} then {:?}: wrote {}, expected {}", ops, last, hex(&got), hex(&pack(&m))));
                }
                let mut r = BitReader::new(&got[..]);
                for op in ops.iter().chain([last, &W::Align]) {
                    let bad = match op {
                        W::Bit(b) => r.read_bit().map_err(|x| e(x.to_string()))? != *b,
                        W::Val(n, x) => r.read_part(*n).map_err(|x| e(x.to_string()))? as u32 != *x as u32 & ((1u32 << n) - 1),
                        W::Vec(b) => {
                            let mut bad = false;
                            for &x in b {
                                bad |= r.read_bit().map_err(|x| e(x.to_string()))? != x;
                            }
                            bad
                        }
                        W::Align => {
                            r.align().map_err(|x| e(x.to_string()))?;
                            false
                        }
                        W::Stored(d) => {
                            r.align().map_err(|x| e(x.to_string()))?;
                            r.read_length_prefixed().map_err(|x| e(x.to_string()))? != *d
                        }
                    };
                    if bad {
                        return Err(format!("{:?} then {:?}: {:?} reads back differently from {}", ops, last, op, hex(&got)));
                    }
                }
                if r.read_bit().is_ok() {
                    return Err(format!("{:?} then {:?}: a bit beyond the end", ops, last));
                }
                h ^= fnv(&got);
            }
            ch.inner(menu.len() as u64, menu.len() as u64 * (wd as u64 + 2) * 2);
            ok("agrees", h)
        }),
        stage("read-splits", 0, "every way of cutting 2 bytes (24 patterns) into parts of 1 to 16 bits: each part has its bits' value", move |ch| {
            let pats: [u16; 6] = [0x0000, 0xffff, 0x5aa5, 0x8001, 0x1234, 0xfffe];
            let x = *ch.of(&pats);
            let d = [x as u8, (x >> 8) as u8, 0xa7, !(x as u8)];
            let whole = u32::from_le_bytes(d);
            let mut r = BitReader::new(&d[..]);
            let mut at = 0u32;
            while at < 32 && at < 18 {
                let n = 1 + ch.pick(16);
                if at + n as u32 > 32 {
                    break;
                }
                let g = r.read_part(n as u8).map_err(|e| e.to_string())?;
                let want = (whole as u64 >> at) as u32 & ((1u32 << n) - 1);
                if g as u32 != want {
                    return Err(format!("bits {}..{} of {}: {:x} instead of {:x}", at, at + n as u32, hex(&d), g, want));
                }
                at += n as u32;
            }
            let mut left = 0;
            while r.read_bit().is_ok() {
                left += 1;
            }
            if at + left != 32 {
                return Err(format!("{} bits left after {} of 32", left, at));
            }
            ok("agrees", x as u64 ^ (at as u64) << 20)
        }),
        stage("stored-length", 0, "stored data of every length 0 to 65535 (quick: to 300 and boundaries) at every alignment, written and read back; one byte more is refused", move |ch| {
            let lens: Vec<usize> = if th { (0..=65536).collect() } else { (0..=300).chain([511, 512, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535, 65536, 65537, 70000]).collect() };
            let n = *ch.of(&lens);
            let k = ch.pick(8);
            let d: Vec<u8> = (0..n).map(|i| (i ^ (i >> 8)) as u8).collect();
            let mut w = BitWriter::new(vec![]);
            (0..k).try_for_each(|i| w.write_bit(i % 2 == 0)).map_err(|e| e.to_string())?;
            let r = w.write_length_prefixed(&d);
            if n > 65535 {
                return if r.is_err() { ok("refused", n as u64) } else { Err(format!("{} bytes accepted as stored data", n)) };
            }
            r.map_err(|e| format!("{} bytes refused: {}", n, e))?;
            let out = w.into_inner();
            let mut m = vec![];
            (0..k).for_each(|i| m.push(i % 2 == 0));
            w_model(&mut m, &W::Stored(vec![]));
            let off = m.len() / 8 - 4;
            let hd = [n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8];
            if out.len() != off + 4 + n || out[off..off + 4] != hd || out[off + 4..] != d[..] {
                return Err(format!("{} bytes at alignment {} stored as {}...", n, k, hex(&out[..out.len().min(12)])));
            }
            let mut r = BitReader::new(&out[..]);
            for i in 0..k {
                if r.read_bit().map_err(|e| e.to_string())? != (i % 2 == 0) {
                    return Err("leading bit differs".into());
                }
            }
            r.align().map_err(|e| e.to_string())?;
            if r.read_length_prefixed().map_err(|e| e.to_string())? != d {
                return Err(format!("{} stored bytes read back differently", n));
            }
            ok("stored", n as u64)
        }),
        stage("equality", 0, "every pair of bit strings of up to 5 (thorough 7) bits, each built by pushing and by pushing and popping one bit of either value: equal exactly when the bits are", move |ch| {
            let k = if th { 7 } else { 5 };
            let mut strs: Vec<Vec<bool>> = vec![];
            for n in 0..=k {
                for x in 0..1u32 << n {
                    strs.push((0..n).map(|i| x >> i & 1 == 1).collect());
                }
            }
            let a = ch.of(&strs).clone();
            let build = |m: &[bool], how: usize| {
                let mut v = BitVec::new();
                for &b in m {
                    if how == 3 {
                        v.push(true);
                        v.pop();
                    }
                    v.push(b);
                }
                if how == 1 || how == 2 {
                    (0..9).for_each(|_| v.push(how == 1));
                    (0..9).for_each(|_| {
                        v.pop();
                    });
                }
                v
            };
            for b in &strs {
                for ha in 0..4 {
                    for hb in 0..4 {
                        if (build(&a, ha) == build(b, hb)) != (a == *b) {
                            return Err(format!("{} (built way {}) and {} (way {}) compare as {}", show(&a), ha, show(b), hb, a != *b));
                        }
                    }
                }
            }
            ch.inner(strs.len() as u64 * 16, strs.len() as u64 * 16);
            ok("agrees", fnv(&a.iter().map(|&b| b as u8).collect::<Vec<_>>()) ^ a.len() as u64)
        }),
    ]
}
mod anyhow_like {
    pub type E = String;
}

// ---------------------------------------------------------------- C17

/// One answer of the wrapped source or sink, as seen from inside.
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    N(usize),
    E(io::ErrorKind, String),
}
fn ans(r: &io::Result<usize>) -> Ans {
    match r {
        Ok(n) => Ans::N(*n),
        Err(e) => Ans::E(e.kind(), e.to_string()),
    }
}

struct Inner<'a> {
    ch: &'a Ch,
    data: &'a [u8],
    pos: usize,
    log: &'a RefCell<Vec<Ans>>,
    /// bytes really transferred
    moved: &'a RefCell<Vec<u8>>,
    flushes: usize,
    /// the kind of the error the plan below calls for
    kind: io::ErrorKind,
    /// answers given before any choice is made: bytes at most, or (None) the error
    plan: Vec<Option<usize>>,
}
impl<'a> Inner<'a> {
    fn answer(&mut self, full: usize) -> io::Result<usize> {
        if !self.plan.is_empty() {
            let r = match self.plan.remove(0) {
                Some(n) => Ok(n.min(full)),
                None => Err(io::Error::new(self.kind, format!("planned {:?}", self.kind))),
            };
            self.log.borrow_mut().push(ans(&r));
            return r;
        }
        let mut opts: Vec<Result<usize, io::ErrorKind>> = vec![Ok(full)];
        for k in [1, full / 2, full.saturating_sub(1)] {
            if k >= 1 && k < full && !opts.contains(&Ok(k)) {
                opts.push(Ok(k));
            }
        }
        opts.push(Ok(0));
        opts.push(Err(io::ErrorKind::Interrupted));
        opts.push(Err(io::ErrorKind::WouldBlock));
        opts.push(Err(io::ErrorKind::Other));
        opts.push(Err(io::ErrorKind::UnexpectedEof));
        let r = match opts[self.ch.dev(opts.len())] {
            Ok(n) => Ok(n),
            Err(k) => Err(io::Error::new(k, format!("injected {:?}", k))),
        };
        self.log.borrow_mut().push(ans(&r));
        r
    }
}
impl<'a> Read for Inner<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let full = (self.data.len() - self.pos).min(buf.len());
        let n = self.answer(full)?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.moved.borrow_mut().extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> Write for Inner<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.answer(buf.len())?;
        self.moved.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        self.answer(0).map(|_| ())
    }
}

/// fills and takes several buffers at once, as files and sockets do
struct Several<'a> {
    data: &'a [u8],
    answers: &'a RefCell<Vec<Option<usize>>>,
    moved: &'a RefCell<Vec<u8>>,
}
impl<'a> Several<'a> {
    /// how much the next call transfers, of this much room
    fn next(&self, room: usize) -> io::Result<usize> {
        match self.answers.borrow().first() {
            Some(Some(n)) => Ok(room.min(*n)),
            Some(None) => Err(io::ErrorKind::TimedOut.into()),
            None => Ok(0),
        }
    }
}
impl<'a> Read for Several<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_vectored(&mut [io::IoSliceMut::new(buf)])
    }
    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut]) -> io::Result<usize> {
        let n = self.next(bufs.iter().map(|b| b.len()).sum())?;
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            let at = self.moved.borrow().len();
            b[..k].copy_from_slice(&self.data[at..at + k]);
            self.moved.borrow_mut().extend_from_slice(&b[..k]);
            left -= k;
        }
        Ok(n)
    }
}
impl<'a> Write for Several<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.write_vectored(&[io::IoSlice::new(buf)])
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice]) -> io::Result<usize> {
        let n = self.next(bufs.iter().map(|b| b.len()).sum())?;
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            self.moved.borrow_mut().extend_from_slice(&b[..k]);
            left -= k;
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sha(d: &[u8]) -> Vec<u8> {
    sha2::Sha512::digest(d).to_vec()
}

fn c17(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let ops = if th { 4 } else { 3 };
    let bound = if th { 4 } else { 3 };
    let data: Vec<u8> = (0..400usize).map(|i| (i * 89 + i / 7) as u8).collect();
    let (d1, d2, d3, d4, d5) = (data.clone(), data.clone(), data.clone(), data.clone(), data);
    vec![
        stage("read", bound, "every sequence of up to 3 (thorough 4) reads with buffers of 0 to 200 bytes, read_exact and read_to_end, up to 3 (thorough 4) deviating answers of the source (short, zero, interrupted, three hard errors)", move |ch| {
            let total = *ch.of(&[0usize, 1, 100, 128, 300]);
            let data = &d1[..total];
            let (log, moved) = (RefCell::new(vec![]), RefCell::new(vec![]));
            let mut f = filter::FilterRead::new(Inner { ch, data, pos: 0, log: &log, moved: &moved, flushes: 0, kind: io::ErrorKind::Other, plan: vec![] });
            let mut got = vec![];
            let n = ch.pick(ops + 1);
            for i in 0..n {
                let k = ch.pick(6);
                log.borrow_mut().clear();
                let before = moved.borrow().len();
                if k < 4 {
                    let size = [0usize, 1, 7, 200][k];
                    let mut buf = vec![0xeeu8; size];
                    let r = f.read(&mut buf);
                    let l = log.borrow();
                    // what a caller of the source itself would have seen, call by call
                    if !(l.len() == 1 && ans(&r) == l[0]) && !(size == 0 && l.is_empty() && ans(&r) == Ans::N(0)) {
                        return Err(format!("read {} of {} bytes: source answered {:?}, caller saw {:?}", i, size, *l, ans(&r)));
                    }
                    if let Ok(n) = r {
                        got.extend_from_slice(&buf[..n]);
                        if buf[n..].iter().any(|&b| b != 0xee) {
                            return Err("bytes beyond the count were touched".into());
                        }
                    }
                } else if k == 4 {
                    let mut buf = [0u8; 70];
                    let r = f.read_exact(&mut buf);
                    let n = moved.borrow().len() - before;
                    if r.is_ok() != (n == 70) {
                        return Err(format!("read_exact of 70 took {} bytes and said {:?}", n, r));
                    }
                    if n > 70 || buf[..n] != moved.borrow()[before..] {
                        return Err(format!("read_exact of 70 took {} bytes, or not those handed over", n));
                    }
                    got.extend_from_slice(&buf[..n]);
                } else {
                    let r = f.read_to_end(&mut got);
                    let hard = log.borrow().iter().any(|a| matches!(a, Ans::E(k, _) if *k != io::ErrorKind::Interrupted));
                    if r.is_ok() == hard {
                        return Err(format!("read_to_end: source answered {:?}, caller saw {:?}", log.borrow(), r));
                    }
                }
                if got != *moved.borrow() {
                    return Err(format!("after read {}: {} bytes came out of the source, {} arrived, or contents differ", i, moved.borrow().len(), got.len()));
                }
            }
            let m = moved.borrow().clone();
            if got != data[..got.len()] {
                return Err("data changed in passing".into());
            }
            if ch.flag() {
                let inner = f.into_inner();
                if inner.pos != m.len() {
                    return Err("source handed back at another position".into());
                }
                return ok("handed-back", fnv(&m));
            }
            let h = f.hash();
            if h != sha(&m) {
                return Err(format!("digest {} is not that of the {} bytes transferred", hex(&h[..h.len().min(8)]), m.len()));
            }
            ok("hashed", fnv(&m))
        }),
        stage("write", bound, "every sequence of up to 3 (thorough 4) writes of 0 to 200 bytes, write_all and flush, up to 3 (thorough 4) deviating answers of the sink", move |ch| {
            let (log, moved) = (RefCell::new(vec![]), RefCell::new(vec![]));
            let mut f = filter::FilterWrite::new(Inner { ch, data: &[], pos: 0, log: &log, moved: &moved, flushes: 0, kind: io::ErrorKind::Other, plan: vec![] });
            let n = ch.pick(ops + 1);
            let mut at = 0;
            let mut want = vec![];
            for i in 0..n {
                let k = ch.pick(6);
                log.borrow_mut().clear();
                let before = moved.borrow().len();
                match k {
                    0..=3 => {
                        let size = [0usize, 1, 7, 130][k];
                        let buf = &d2[at % 200..at % 200 + size];
                        let r = f.write(buf);
                        let l = log.borrow();
                        if !(l.len() == 1 && ans(&r) == l[0]) && !(size == 0 && l.is_empty() && ans(&r) == Ans::N(0)) {
                            return Err(format!("write {} of {} bytes: sink answered {:?}, caller saw {:?}", i, size, *l, ans(&r)));
                        }
                        if let Ok(n) = r {
                            want.extend_from_slice(&buf[..n]);
                            at += n;
                        }
                    }
                    4 => {
                        let buf = &d2[at % 200..at % 200 + 70];
                        let r = f.write_all(buf);
                        let n = moved.borrow().len() - before;
                        if r.is_ok() != (n == 70) && !(r.is_err() && n < 70) {
                            return Err(format!("write_all of 70 moved {} bytes and said {:?}", n, r));
                        }
                        want.extend_from_slice(&buf[..n.min(70)]);
                        at += n;
                    }
                    _ => {
                        let r = f.flush();
                        let l = log.borrow();
                        let same = match (&r, l.first()) {
                            (Ok(()), Some(Ans::N(_))) => true,
                            (Err(e), Some(Ans::E(k, s))) => e.kind() == *k && e.to_string() == *s,
                            _ => false,
                        };
                        if l.len() != 1 || !same {
                            return Err(format!("flush: sink answered {:?}, caller saw {:?}", *l, r));
                        }
                    }
                }
                if want != *moved.borrow() {
                    return Err(format!("after operation {}: the sink received other bytes than those accepted", i));
                }
            }
            let m = moved.borrow().clone();
            if ch.flag() {
                f.into_inner();
                return ok("handed-back", fnv(&m));
            }
            let h = f.hash();
            if h != sha(&m) {
                return Err(format!("digest {} is not that of the {} bytes transferred", hex(&h[..h.len().min(8)]), m.len()));
            }
            ok("hashed", fnv(&m))
        }),
        stage("reading-methods", 0, "every sequence of up to three operations out of nine provided methods of Read (strings valid, not UTF-8 or cut, non-empty targets, bytes, take, chain, copies, vectored reads), sources of six contents that give whole, single or three bytes, stutter, or fail for good or once", move |ch| {
            let text: &[&[u8]] = &[b"", b"plain text, forty-two bytes of it in a row", "h\u{e9}llo w\u{f6}rld \u{1f600} \u{20ac} and \u{10348} so on".as_bytes(), b"\xff\xfe at once", b"good until the mid\x80dle of it, then good", b"good until the very last \xe2\x82"];
            let data = *ch.of(text);
            let mode = *ch.of(&[Mode::Full, Mode::One, Mode::Stutter, Mode::Chunk(3)]);
            let mut e = EnvRead::new(data, ch, mode);
            e.deviate = false;
            let failing = ch.pick(3);
            if failing > 0 {
                e.fail_at = Some((*ch.of(&[0usize, 1, 10]).min(&data.len()), io::ErrorKind::TimedOut));
                e.once = failing == 2;
            }
            // what came out of the source, in the order it came (kept apart from what is delivered)
            let mut got: Vec<u8> = vec![];
            let mut lost = false;
            let mut f = filter::FilterRead::new(&mut e);
            let n = ch.pick(4);
            let mut ops = vec![];
            for _ in 0..n {
                let k = ch.pick(9);
                ops.push(k);
                match k {
                    0 => {
                        let mut t = String::from("kept");
                        match f.read_to_string(&mut t) {
                            Ok(m) if t.starts_with("kept") && t.len() == 4 + m => got.extend_from_slice(t[4..].as_bytes()),
                            Ok(m) => return Err(format!("read_to_string says {} and leaves {:?}", m, t)),
                            // what it read before it failed is not told, but must count
                            Err(_) => lost = true,
                        }
                    }
                    1 => {
                        let mut t = b"kept".to_vec();
                        let r = f.read_to_end(&mut t);
                        if !t.starts_with(b"kept") || matches!(r, Ok(m) if m + 4 != t.len()) {
                            return Err(format!("read_to_end says {:?} and leaves {}", r, hex(&t)));
                        }
                        got.extend_from_slice(&t[4..]);
                    }
                    2 => {
                        for b in f.by_ref().bytes().take(5) {
                            match b {
                                Ok(b) => got.push(b),
                                Err(_) => break,
                            }
                        }
                    }
                    3 => {
                        f.by_ref().take(7).read_to_end(&mut got).ok();
                    }
                    4 => {
                        let mut t = vec![];
                        let r = f.by_ref().chain(&b"more"[..]).read_to_end(&mut t);
                        if r.is_ok() {
                            if !t.ends_with(b"more") {
                                return Err("the end of a chained source is missing".into());
                            }
                            t.truncate(t.len() - 4);
                        }
                        got.extend_from_slice(&t);
                    }
                    5 => {
                        io::copy(&mut f, &mut got).ok();
                    }
                    6 => {
                        let (mut b1, mut b2) = ([0u8; 2], [0u8; 9]);
                        if let Ok(m) = f.read_vectored(&mut [io::IoSliceMut::new(&mut b1), io::IoSliceMut::new(&mut []), io::IoSliceMut::new(&mut b2)]) {
                            got.extend_from_slice(&b1[..m.min(2)]);
                            got.extend_from_slice(&b2[..m.saturating_sub(2)]);
                        }
                    }
                    7 => {
                        let mut b = [0u8; 6];
                        match f.read_exact(&mut b) {
                            Ok(()) => got.extend_from_slice(&b),
                            Err(_) => lost = true,
                        }
                    }
                    _ => {
                        let mut b = [0u8; 4];
                        if let Ok(m) = f.read(&mut b) {
                            got.extend_from_slice(&b[..m]);
                        }
                    }
                }
            }
            ch.note(|| format!("{:?} of {} from {:?}", ops, hex(data), mode));
            let digest = f.hash();
            let m = &data[..e.pos];
            if digest != sha(m) {
                return Err(format!("the digest is not that of the {} bytes the source gave: {:?} {:?}", m.len(), ops, mode));
            }
            if !lost && got != m {
                return Err(format!("the source gave {}, the caller got {}: {:?} {:?}", hex(m), hex(&got), ops, mode));
            }
            ok("read", mix(fnv(m), ops.len() as u64))
        }),
        stage("vectored", 0, "sources and sinks that fill or take several buffers at once: every one or two calls with up to three buffers of 0, 1, 3 or 90 bytes, every count they could answer up to 8 bytes or at the edge of a buffer, or an error", move |ch| {
            let data: Vec<u8> = (0..400usize).map(|i| (i * 31 + i / 5) as u8).collect();
            let answers: RefCell<Vec<Option<usize>>> = RefCell::new(vec![]);
            let moved = RefCell::new(vec![]);
            let mut at = 0;
            let writing = ch.flag();
            let mut r = filter::FilterRead::new(Several { data: &data, answers: &answers, moved: &moved });
            let mut w = filter::FilterWrite::new(Several { data: &data, answers: &answers, moved: &moved });
            let mut want: Vec<u8> = vec![];
            for _ in 0..1 + ch.pick(2) {
                let sizes: Vec<usize> = (0..ch.pick(4)).map(|_| *ch.of(&[0usize, 1, 3, 90])).collect();
                let total: usize = sizes.iter().sum();
                let mut menu: Vec<usize> = (0..=total.min(8)).collect();
                let mut edge = 0;
                for z in &sizes {
                    edge += z;
                    menu.extend([edge.saturating_sub(1), edge, edge + 1].iter().filter(|&&e| e > 8 && e <= total));
                }
                menu.dedup();
                let k = ch.pick(menu.len() + 1);
                let answer = menu.get(k).cloned();
                answers.borrow_mut().push(answer);
                let before = moved.borrow().len();
                let got = if writing {
                    let mut bufs = vec![];
                    let mut from = at;
                    for z in &sizes {
                        bufs.push(io::IoSlice::new(&data[from..from + z]));
                        from += z;
                    }
                    w.write_vectored(&bufs).map(|n| data[at..at + n].to_vec())
                } else {
                    let mut room: Vec<Vec<u8>> = sizes.iter().map(|&z| vec![0xeeu8; z]).collect();
                    let n = r.read_vectored(&mut room.iter_mut().map(|b| io::IoSliceMut::new(b)).collect::<Vec<_>>());
                    let flat = room.concat();
                    n.map(|n| flat[..n].to_vec())
                };
                answers.borrow_mut().clear();
                let passed = moved.borrow()[before..].to_vec();
                match got {
                    Ok(got) => {
                        if got != passed {
                            return Err(format!("{} bytes said to be transferred, {} were ({} buffers of {:?})", got.len(), passed.len(), sizes.len(), sizes));
                        }
                        at += got.len();
                        want.extend(got);
                    }
                    Err(e) => {
                        if answer.is_some() || !passed.is_empty() {
                            return Err(format!("said to fail ({}), {} bytes were transferred", e, passed.len()));
                        }
                    }
                }
            }
            let h = if writing { w.hash() } else { r.hash() };
            if h != sha(&want) {
                return Err(format!("the digest is not that of the {} bytes transferred ({} at several buffers)", want.len(), if writing { "writing" } else { "reading" }));
            }
            ok(if writing { "written" } else { "read" }, fnv(&want))
        }),
        stage("writing-methods", 0, "every sequence of up to three operations out of seven provided methods of Write (formatted, vectored, copies, by reference, flush), sinks that take whole, single or three bytes, stutter, or are full at any of 60 sizes", move |ch| {
            let mode = *ch.of(&[Mode::Full, Mode::One, Mode::Stutter, Mode::Chunk(3)]);
            let mut e = EnvWrite::new(ch, mode);
            e.deviate = false;
            let room = ch.pick(61);
            if room < 60 {
                e.room = Some(room);
            }
            let n = ch.pick(4);
            let mut f = filter::FilterWrite::new(&mut e);
            let mut want: Vec<u8> = vec![];
            let mut ops = vec![];
            let mut failed = false;
            for _ in 0..n {
                let k = ch.pick(7);
                ops.push(k);
                let r: io::Result<()> = match k {
                    0 => {
                        want.extend_from_slice(b"value 0x002a of \xc3\xa9!");
                        write!(f, "value {:#06x} of {}!", 42, '\u{e9}')
                    }
                    1 => {
                        want.extend_from_slice(b"0123456789abcdef");
                        f.write_all(b"0123456789abcdef")
                    }
                    2 => {
                        want.extend_from_slice(b"by reference");
                        f.by_ref().write_all(b"by reference")
                    }
                    3 => {
                        want.extend_from_slice(b"copied in one go");
                        io::copy(&mut &b"copied in one go"[..], &mut f).map(|_| ())
                    }
                    4 => f.flush(),
                    5 => match f.write_vectored(&[io::IoSlice::new(b"ab"), io::IoSlice::new(b""), io::IoSlice::new(b"cdefg")]) {
                        Ok(m) => {
                            want.extend_from_slice(&b"abcdefg"[..m]);
                            Ok(())
                        }
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => Ok(()),
                        Err(e) => Err(e),
                    },
                    _ => match f.write(b"plain") {
                        Ok(m) => {
                            want.extend_from_slice(&b"plain"[..m]);
                            Ok(())
                        }
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => Ok(()),
                        Err(e) => Err(e),
                    },
                };
                if r.is_err() {
                    failed = true;
                    break;
                }
            }
            ch.note(|| format!("{:?} into {:?} with room {}", ops, mode, room));
            let digest = f.hash();
            if digest != sha(&e.got) {
                return Err(format!("the digest is not that of the {} bytes the sink took: {:?} {:?} room {}", e.got.len(), ops, mode, room));
            }
            if failed != e.faulted || (!failed && e.got != want) || !want.starts_with(&e.got) && !failed {
                return Err(format!("the sink {} and took {}; the caller was told {} and wrote {}: {:?} {:?} room {}", if e.faulted { "failed" } else { "did not fail" }, hex(&e.got), if failed { "of a failure" } else { "of none" }, hex(&want), ops, mode, room));
            }
            ok("written", mix(fnv(&e.got), ops.len() as u64))
        }),
        stage("kinds", 0, "each of 37 error kinds from one of four reads, writes or flushes, by plain and vectored (up to three slices) calls: handed on as it is, and everything else still passes and counts", move |ch| {
            let kinds: Vec<io::ErrorKind> = ALL_KINDS.iter().cloned().chain([io::ErrorKind::Interrupted]).collect();
            let kind = *ch.of(&kinds);
            let at = ch.pick(4);
            let part = *ch.of(&[1usize, 20, 400]);
            let op = ch.pick(5);
            let (log, moved) = (RefCell::new(vec![]), RefCell::new(vec![]));
            let plan: Vec<Option<usize>> = (0..4).map(|i| if i == at { None } else { Some(part) }).collect();
            let inner = Inner { ch, data: &d4[..], pos: 0, log: &log, moved: &moved, flushes: 0, kind, plan };
            ch.note(|| format!("operation {} fails with {:?} at call {}, parts of {}", op, kind, at, part));
            let seen = |i: usize, r: &io::Result<usize>| -> Result<(), String> {
                let l = log.borrow();
                if l.len() != i + 1 || ans(r) != l[i] {
                    return Err(format!("call {}: answered {:?}, caller saw {:?}", i, *l, ans(r)));
                }
                Ok(())
            };
            let (mut b1, mut b2, mut b3) = ([0u8; 3], [0u8; 0], [0u8; 60]);
            let mut got = vec![];
            let digest = match op {
                0 | 1 => {
                    let mut f = filter::FilterRead::new(inner);
                    for i in 0..4 {
                        let r = if op == 0 { f.read(&mut b3) } else { f.read_vectored(&mut [io::IoSliceMut::new(&mut b1), io::IoSliceMut::new(&mut b2), io::IoSliceMut::new(&mut b3)]) };
                        seen(i, &r)?;
                        if let Ok(n) = r {
                            if op == 0 {
                                got.extend_from_slice(&b3[..n]);
                            } else {
                                got.extend_from_slice(&b1[..n.min(3)]);
                                got.extend_from_slice(&b3[..n.saturating_sub(3)]);
                            }
                        }
                    }
                    f.hash()
                }
                _ => {
                    let mut f = filter::FilterWrite::new(inner);
                    for i in 0..4 {
                        let d = &d4[got.len()..];
                        let r = match op {
                            2 => f.write(&d[..63]),
                            3 => f.write_vectored(&[io::IoSlice::new(&d[..3]), io::IoSlice::new(&[]), io::IoSlice::new(&d[3..63])]),
                            _ if i == at => match f.flush() {
                                Ok(()) => return Err("a failed flush is not handed on".into()),
                                Err(e) => Err(e),
                            },
                            _ => f.write(&d[..63]),
                        };
                        seen(i, &r)?;
                        if let Ok(n) = r {
                            got.extend_from_slice(&d[..n]);
                        }
                    }
                    f.hash()
                }
            };
            if got != *moved.borrow() || got != d4[..got.len()] {
                return Err(format!("{} bytes passed, {} were seen to, or others", moved.borrow().len(), got.len()));
            }
            if digest != sha(&got) {
                return Err(format!("the digest is not that of the {} bytes transferred", got.len()));
            }
            ok("kinds", mix(fnv(&got), at as u64))
        }),
        stage("interrupted", 0, "1 to 300 interruptions before the first and the second answer of a source or sink that passes 1, 20 or all bytes at a time: read_exact, read_to_end, write_all and io::copy do not mind", move |ch| {
            let storm = *ch.of(&[1usize, 2, 3, 5, 8, 10, 16, 32, 100, 300]);
            let part = *ch.of(&[1usize, 20, 400]);
            let op = ch.pick(5);
            let (log, moved) = (RefCell::new(vec![]), RefCell::new(vec![]));
            let mut plan = vec![None; storm];
            plan.push(Some(part));
            plan.extend(vec![None; storm]);
            plan.extend(vec![Some(part); 500]);
            let inner = Inner { ch, data: &d5[..], pos: 0, log: &log, moved: &moved, flushes: 0, kind: io::ErrorKind::Interrupted, plan };
            let bad = |e: io::Error| format!("operation {}, {} interruptions, parts of {}: {}", op, storm, part, e);
            let mut got = vec![];
            let digest = match op {
                0 => {
                    let mut f = filter::FilterRead::new(inner);
                    let mut b = [0u8; 333];
                    f.read_exact(&mut b).map_err(bad)?;
                    got.extend_from_slice(&b);
                    f.hash()
                }
                1 => {
                    let mut f = filter::FilterRead::new(inner);
                    f.read_to_end(&mut got).map_err(bad)?;
                    f.hash()
                }
                2 => {
                    let mut f = filter::FilterRead::new(inner);
                    io::copy(&mut f, &mut got).map_err(bad)?;
                    f.hash()
                }
                3 => {
                    let mut f = filter::FilterWrite::new(inner);
                    f.write_all(&d5).map_err(bad)?;
                    got.extend_from_slice(&d5);
                    f.hash()
                }
                _ => {
                    let mut f = filter::FilterWrite::new(inner);
                    io::copy(&mut &d5[..], &mut f).map_err(bad)?;
                    got.extend_from_slice(&d5);
                    f.hash()
                }
            };
            if got != *moved.borrow() || got.len() < 333 || got != d5[..got.len()] {
                return Err(format!("operation {}: {} bytes passed, {} were seen to, or others", op, moved.borrow().len(), got.len()));
            }
            if digest != sha(&got) {
                return Err(format!("the digest is not that of the {} bytes transferred", got.len()));
            }
            ok("interrupted", mix(fnv(&got), mix(storm as u64, part as u64)))
        }),
        stage("large", 1, "100 bytes to 200000 (thorough 4 MiB) read and written at once, in pieces, by read_to_end, io::copy and vectored calls, with at most one deviating answer", move |ch| {
            let mut ns = vec![100usize, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131073, 200000];
            if th {
                ns.extend([262144, 1 << 20, (1 << 20) + 1, 4 << 20]);
            }
            let n = *ch.of(&ns);
            let data: Vec<u8> = (0..n).map(|i| (i * 89 + i / 7 + i / 65536 * 3) as u8).collect();
            let (log, moved) = (RefCell::new(vec![]), RefCell::new(vec![]));
            let write = ch.flag();
            let how = ch.pick(4);
            let big = (n / 5).max(10);
            // a hard error or a lying zero ends the transfer; everything else must arrive
            let (seen, digest) = if write {
                let mut f = filter::FilterWrite::new(Inner { ch, data: &[], pos: 0, log: &log, moved: &moved, flushes: 0, kind: io::ErrorKind::Other, plan: vec![] });
                let mut at = 0;
                let pieces: Vec<&[u8]> = match how {
                    0 | 3 => vec![&data[..]],
                    1 => data.chunks(big).collect(),
                    _ => vec![&data[..n / 2], &data[n / 2..n / 2 + 1], &data[n / 2 + 1..]],
                };
                'all: for p in pieces {
                    let mut done = 0;
                    while done < p.len() {
                        log.borrow_mut().clear();
                        let r = if how == 3 { f.write_vectored(&[io::IoSlice::new(&p[done..])]) } else { f.write(&p[done..]) };
                        let l = log.borrow();
                        if l.len() != 1 || ans(&r) != l[0] {
                            return Err(format!("write of {} bytes: sink answered {:?}, caller saw {:?}", p.len() - done, *l, ans(&r)));
                        }
                        match r {
                            Ok(0) => break 'all,
                            Ok(k) => done += k,
                            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                            Err(_) => break 'all,
                        }
                    }
                    at += done;
                    if done < p.len() {
                        break;
                    }
                }
                let _ = at;
                (moved.borrow().clone(), f.hash())
            } else {
                let mut f = filter::FilterRead::new(Inner { ch, data: &data, pos: 0, log: &log, moved: &moved, flushes: 0, kind: io::ErrorKind::Other, plan: vec![] });
                let mut got = vec![];
                match how {
                    0 => {
                        let _ = f.read_to_end(&mut got);
                    }
                    1 => {
                        let mut buf = vec![0; big];
                        loop {
                            match f.read(&mut buf) {
                                Ok(0) => break,
                                Ok(k) => got.extend_from_slice(&buf[..k]),
                                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                                Err(_) => break,
                            }
                        }
                    }
                    2 => {
                        let _ = io::copy(&mut f, &mut got);
                    }
                    _ => loop {
                        let (mut a, mut b) = (vec![0; big], vec![0; 7]);
                        let r = f.read_vectored(&mut [io::IoSliceMut::new(&mut a), io::IoSliceMut::new(&mut b)]);
                        match r {
                            Ok(0) => break,
                            Ok(k) => {
                                a.extend(b);
                                got.extend_from_slice(&a[..k]);
                            }
                            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                            Err(_) => break,
                        }
                    },
                }
                (got, f.hash())
            };
            let m = moved.borrow();
            if seen != *m || m[..] != data[..m.len()] {
                return Err(format!("{} of {} bytes: {} bytes on one side, {} on the other, or contents differ", if write { "write" } else { "read" }, n, seen.len(), m.len()));
            }
            if digest != sha(&m) {
                return Err(format!("{} of {} bytes: the digest is not that of the {} bytes transferred", if write { "write" } else { "read" }, n, m.len()));
            }
            ok(if m.len() == n { "all" } else { "part" }, mix(n as u64, mix(m.len() as u64, how as u64)))
        }),
        stage("lengths", 0, "every data length 0 to 400 and every two-way split of it, read and written; digests of the standard vectors", move |ch| {
            let n = ch.pick(401);
            let d = &d3[..n];
            let want = sha(d);
            if n == 0 {
                let abc = "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f";
                let mut w = filter::FilterWrite::new(vec![]);
                w.write_all(b"abc").map_err(|e| e.to_string())?;
                if hex(&w.hash()) != abc {
                    return Err("digest of 'abc' is not the standard one".into());
                }
            }
            for k in 0..=n {
                let mut r = filter::FilterRead::new(d);
                let mut b = vec![0; k];
                r.read_exact(&mut b).map_err(|e| e.to_string())?;
                let mut rest = vec![];
                r.read_to_end(&mut rest).map_err(|e| e.to_string())?;
                b.extend(rest);
                if b != d || r.hash() != want {
                    return Err(format!("read of {} bytes split at {}", n, k));
                }
                let mut out = vec![];
                let mut w = filter::FilterWrite::new(&mut out);
                w.write_all(&d[..k]).and_then(|_| w.write_all(&d[k..])).map_err(|e| e.to_string())?;
                let h = w.hash();
                if out != d || h != want {
                    return Err(format!("write of {} bytes split at {}", n, k));
                }
            }
            ch.inner(2 * n as u64 + 2, 4 * n as u64 + 4);
            ok("agrees", n as u64)
        }),
    ]
}
