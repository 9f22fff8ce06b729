//! C08-C14: match candidates, the guesser, traces and their serialised form.
use crate::deflate::{expand_codes, hex, r, C};
use crate::engine::*;
use crate::env::*;
use crate::search::*;
use crate::sut;
use crate::{stage, Stage, Tier};
use librezip::all_refs::AllRefs;
use librezip::verif_hooks::Lookahead;
use librezip::{serialise_trace, trace, tracer, Code, Config, Guesser, Technique, Trace};
use std::io::ErrorKind;

pub fn stages(id: &str, t: Tier) -> Vec<Stage> {
    match id {
        "C08" => c08(t),
        "C09" => c09(t),
        "C10" => c10(t),
        "C11" => c11(t),
        "C12" => c12(t),
        "C13" => c13(t),
        "C14" => c14(t),
        _ => vec![],
    }
}

#[derive(Clone, Copy)]
pub struct Tech {
    pub name: &'static str,
    pub cfg: Config,
    pub limit: u16,
    pub p: Params,
    /// the model says what it predicts
    pub pinned: bool,
}

fn scaled(name: &'static str, base: Config, limit: u16, nice: u16, chain: usize, insert: Option<u16>, drop_far: bool, three: bool) -> Tech {
    let mut cfg = base;
    cfg.wams.quit_search_above_length = nice;
    cfg.wams.limit_count_of_distances = chain;
    cfg.wams.insert_only_below_length = insert;
    Tech { name, cfg, limit, p: Params { chain_all: limit as usize, chain, nice, insert, drop_far, three }, pinned: true }
}

/// Techniques whose limits bite on very short data.
pub fn small_techs() -> Vec<Tech> {
    let g1 = Config::gzip(1);
    let g6 = Config::gzip(6);
    let sp = Config::spicy();
    let mut gz = g6;
    gz.lookahead = Lookahead::Gzip;
    let mut gz1 = g1;
    gz1.lookahead = Lookahead::Gzip;
    let mut sp1 = g1;
    sp1.lookahead = Lookahead::ThreeZip;
    vec![
        Tech { name: "gzip1", cfg: g1, limit: u16::MAX, p: Params::gzip(1).limit(65535), pinned: true },
        Tech { name: "gzip6", cfg: g6, limit: u16::MAX, p: Params::gzip(6), pinned: true },
        Tech { name: "spicy", cfg: sp, limit: u16::MAX, p: Params::spicy(), pinned: true },
        scaled("insert3", g1, u16::MAX, 258, 100, Some(3), false, false),
        scaled("insert3-chain1", g1, u16::MAX, 258, 1, Some(3), false, false),
        scaled("nice4-chain2", g6, u16::MAX, 4, 2, None, true, false),
        scaled("refs1", g6, 1, 258, 100, None, true, false),
        scaled("spicy-insert3", sp1, u16::MAX, 5, 3, Some(3), false, true),
        Tech { name: "lookahead-gzip", cfg: gz, limit: u16::MAX, p: Params::gzip(6), pinned: false },
        Tech { name: "lookahead-gzip-insert", cfg: gz1, limit: u16::MAX, p: Params::gzip(1), pinned: false },
    ]
}
pub fn all_techs() -> Vec<Tech> {
    let names = ["gzip1", "gzip2", "gzip3", "gzip4", "gzip5", "gzip6", "gzip7", "gzip8", "gzip9"];
    let mut v: Vec<Tech> = (1..=9u8).map(|l| Tech { name: names[l as usize - 1], cfg: Config::gzip(l), limit: u16::MAX, p: Params::gzip(l).limit(65535), pinned: true }).collect();
    v.push(Tech { name: "spicy", cfg: Config::spicy(), limit: u16::MAX, p: Params::spicy(), pinned: true });
    v
}

/// Every code sequence that spells `all[pos..]`, handed to `f` one by one.
fn tilings(all: &[u8], pos: usize, codes: &mut Vec<C>, f: &mut dyn FnMut(&[C]) -> Result<(), String>) -> Result<(), String> {
    if pos == all.len() {
        return f(codes);
    }
    codes.push(C::L(all[pos]));
    tilings(all, pos + 1, codes, f)?;
    codes.pop();
    for d in 1..=pos.min(32768) {
        let m = run_at(all, pos - d, pos);
        for l in 3..=m {
            codes.push(r(d as u16, l));
            tilings(all, pos + l as usize, codes, f)?;
            codes.pop();
        }
    }
    Ok(())
}

/// Every consistent state: a code sequence covering `all[start..pos]` for every pos.
fn prefixes(all: &[u8], pos: usize, codes: &mut Vec<C>, f: &mut dyn FnMut(&[C], usize) -> Result<(), String>) -> Result<(), String> {
    f(codes, pos)?;
    if pos == all.len() {
        return Ok(());
    }
    codes.push(C::L(all[pos]));
    prefixes(all, pos + 1, codes, f)?;
    codes.pop();
    for d in 1..=pos.min(32768) {
        let m = run_at(all, pos - d, pos);
        for l in 3..=m {
            codes.push(r(d as u16, l));
            prefixes(all, pos + l as usize, codes, f)?;
            codes.pop();
        }
    }
    Ok(())
}

fn case(all: &[u8], pre: usize, tech: &Tech, codes: &[C]) -> String {
    format!("technique {} earlier data {} data {} codes {:?}", tech.name, hex(&all[..pre]), hex(&all[pre..]), &codes[..codes.len().min(24)])
}

fn check_restore(tech: &Technique, codes: &[Code]) -> Result<Vec<Trace>, String> {
    let tr = guarded(|| trace::trace(codes, tech)).map_err(|p| format!("tracing: {}", p))?;
    let back = guarded(|| trace::restore(&tr, tech)).map_err(|p| format!("restoring from {:?}: {}", &tr[..tr.len().min(24)], p))?;
    if !sut::same_codes(&back, codes) {
        let at = (0..back.len().max(codes.len())).find(|&i| match (back.get(i), codes.get(i)) { (Some(a), Some(b)) => !sut::same_code(a, b), _ => true }).unwrap();
        return Err(format!("restored sequence differs at code {}: {:?} instead of {:?} (trace {:?})", at, back.get(at), codes.get(at), &tr[..tr.len().min(24)]));
    }
    Ok(tr)
}

/// C09: compare the trace entry by entry with the guesses of a scanner walked along the codes.
fn check_trace_entries(tech: &Technique, codes: &[Code]) -> Result<Vec<Trace>, String> {
    let tr = guarded(|| trace::trace(codes, tech))?;
    if tr.len() != codes.len() {
        return Err(format!("{} entries for {} codes", tr.len(), codes.len()));
    }
    let mut sc = tech.scanner();
    let mut i = 0;
    while i < codes.len() {
        let g = sc.codes();
        if g.is_empty() {
            return Err(format!("no guess at code {}", i));
        }
        for guess in g {
            if i >= codes.len() {
                break;
            }
            let want = if sut::same_code(&guess, &codes[i]) {
                Trace::Correct
            } else {
                match codes[i] {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                }
            };
            if !sut::same_entry(&tr[i], &want) {
                return Err(format!("entry {} is {:?}, expected {:?} (guess {:?}, code {:?})", i, tr[i], want, guess, codes[i]));
            }
            sc.feedback(codes[i]);
            i += 1;
            if !sut::correct(&want) {
                break;
            }
        }
    }
    Ok(tr)
}

/// A string over an alphabet, every length up to n, every content.
fn word(ch: &Ch, n: usize, alphabet: &[u8]) -> Vec<u8> {
    let k = ch.pick(n + 1);
    (0..k).map(|_| *ch.of(alphabet)).collect()
}

/// (0,1,0) and (0,0,32) share a hash key, as do (1,0,x) and (0,32,x).
const COLLIDING: [u8; 3] = [0, 1, 0x20];
/// first bytes that differ only in a bit the hash drops
const COLLIDING2: [u8; 2] = [0x41, 0x61];

#[derive(Clone, Copy, PartialEq)]
enum What {
    Restore,
    Entries,
}

fn tile_stage(name: &'static str, n: usize, alphabet: &'static [u8], techs: Vec<Tech>, what: What) -> Stage {
    stage(name, 0, "every string up to the bound over the alphabet x every split into earlier data and data x every technique x every code sequence that spells the data", move |ch| {
        let all = word(ch, n, alphabet);
        let mut runs = 0u64;
        let mut h = fnv(&all);
        ch.note(|| format!("{} with every split, technique and code sequence", hex(&all)));
        for pre in 0..=all.len() {
            let mut done: Vec<(u16, AllRefs)> = vec![];
            for t in &techs {
                if !done.iter().any(|x| x.0 == t.limit) {
                    done.push((t.limit, AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit)));
                }
                let refs = &done.iter().find(|x| x.0 == t.limit).unwrap().1;
                let tech = Technique::new(t.cfg, refs);
                tilings(&all, pre, &mut vec![], &mut |codes| {
                    runs += 1;
                    let cs = sut::to_codes(codes);
                    let tr = match what {
                        What::Restore => check_restore(&tech, &cs),
                        What::Entries => check_trace_entries(&tech, &cs),
                    }
                    .map_err(|e| format!("{}: {}", case(&all, pre, t, codes), e))?;
                    h = mix(h, tr.len() as u64);
                    Ok(())
                })?;
            }
        }
        ch.inner(runs.saturating_sub(1), runs.saturating_sub(1));
        ok("ok", h)
    })
}

/// Longer texts with structure.
pub fn text(k: usize) -> Vec<u8> {
    let rep = |s: &[u8], n: usize| s.iter().cloned().cycle().take(n).collect::<Vec<u8>>();
    match k {
        0 => b"abcdeabcdefabcdefgabcdefgh".to_vec(),
        1 => rep(b"a", 40),
        2 => b"the cat sat on the mat, the cat sat on the hat, that cat sat".to_vec(),
        3 => rep(b"ab", 31),
        4 => {
            // lazy-match bait: xab, abcd, bcdef ...
            b"abc-bcde-cdefg-abcdefg-xabcdefgh-abcabcdbcdecdefg".to_vec()
        }
        5 => {
            let mut v = rep(b"xyz", 270);
            v.extend(b"!");
            v.extend(rep(b"xyz", 265));
            v
        }
        6 => vec![0, 1, 0, 5, 0, 0, 32, 7, 0, 1, 0, 9, 0, 0, 32, 1, 0, 4, 0, 32, 4, 1, 0, 4, 0, 1, 0, 5],
        _ => {
            let mut v = vec![];
            for i in 0..24u8 {
                v.extend([b'Q', b'R', b'S', i, i ^ 0x5a]);
            }
            v.extend(b"QRSTUQRS");
            v
        }
    }
}

/// Codes that follow the real guesser except where the explorer deviates.
fn steered(ch: &Ch, tech: &Technique, all: &[u8], pre: usize) -> Result<Vec<C>, String> {
    let mut sc = tech.scanner();
    let mut out: Vec<C> = vec![];
    let mut pos = pre;
    while pos < all.len() {
        let g = sut::to_c(&sc.codes());
        if g.is_empty() {
            return Err("empty guess".into());
        }
        for c in g {
            // alternatives at this point
            let mut menu = vec![c.clone()];
            let mut add = |x: C| {
                if !menu.contains(&x) {
                    menu.push(x)
                }
            };
            add(C::L(all[pos]));
            let mut seen = 0;
            for d in 1..=pos.min(32768) {
                let m = run_at(all, pos - d, pos);
                if m >= 3 {
                    add(r(d as u16, 3));
                    add(r(d as u16, m));
                    if m > 4 {
                        add(r(d as u16, m - 1));
                    }
                    seen += 1;
                    if seen == 3 {
                        break;
                    }
                }
            }
            if pos >= 1 {
                // as far back as possible
                for d in (1..=pos.min(32768)).rev().take(64) {
                    let m = run_at(all, pos - d, pos);
                    if m >= 3 {
                        add(r(d as u16, m));
                        break;
                    }
                }
            }
            let i = ch.dev(menu.len());
            let x = menu[i].clone();
            sc.feedback(sut::to_code(&x));
            pos += match x {
                C::L(_) => 1,
                C::R { len, .. } => len as usize,
            };
            out.push(x);
            if i != 0 || pos >= all.len() {
                break;
            }
        }
        if sc.pos != pos {
            return Err(format!("scanner is at {}, expected {}", sc.pos, pos));
        }
    }
    Ok(out)
}

fn steer_stage(name: &'static str, bound: u32, techs: Vec<Tech>, what: What) -> Stage {
    stage(name, bound, "structured texts x several splits x every technique: codes follow the guesser with up to the bound's number of deviations (literal, shorter, other candidate, farthest) at every point", move |ch| {
        let all = text(ch.pick(8));
        let t = ch.of(&techs);
        let pre = [0, 1, all.len() / 3, all.len() / 2][ch.pick(4)];
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        let codes = steered(ch, &tech, &all, pre)?;
        ch.note(|| case(&all, pre, t, &codes));
        let cs = sut::to_codes(&codes);
        let tr = match what {
            What::Restore => check_restore(&tech, &cs),
            What::Entries => check_trace_entries(&tech, &cs),
        }
        .map_err(|e| format!("{}: {}", case(&all, pre, t, &codes), e))?;
        let wrong = tr.iter().filter(|x| !sut::correct(x)).count();
        ok(if wrong == 0 { "all-correct" } else { "overrides" }, mix(mix(fnv(&all), pre as u64), fnv(format!("{:?}", tr).as_bytes())))
    })
}

/// Data with a long history: `k` chooses the size of the earlier data, the data repeats things at extreme distances.
fn far_case(ch: &Ch) -> (Vec<u8>, usize) {
    let gap = *ch.of(&[4095usize, 4096, 4097, 32766, 32767, 32768, 32769, 33000]);
    let len = *ch.of(&[3usize, 4, 257, 258, 259, 300]);
    let inpre = ch.pick(3);
    // block B, filler with unique-ish content, block B again at distance `gap`
    let b: Vec<u8> = (0..len).map(|i| 128 + ((i * 11 + i / 37) % 100) as u8).collect();
    let mut all = vec![1u8, 2, 3, 4, 5];
    all.extend(&b);
    let mut i = 0u32;
    while all.len() < 5 + gap {
        let x = (i.wrapping_mul(2654435761) >> 9) as u8 & 0x7f;
        all.push(x);
        i += 1;
    }
    all.truncate(5 + gap);
    all.extend(&b);
    all.push(200);
    let pre = match inpre {
        0 => 5 + gap,
        1 => 5 + gap - 2,
        _ => (5 + gap).saturating_sub(40),
    };
    (all, pre)
}

fn far_stage(what: What, techs: Vec<Tech>) -> Stage {
    stage("far", 1, "a block repeated at distances around 4096 and 32768 with lengths around 3 and 258, mostly in earlier data; codes follow the guesser with at most one deviation", move |ch| {
        let (all, pre) = far_case(ch);
        let t = ch.of(&techs);
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        let codes = steered(ch, &tech, &all, pre)?;
        ch.note(|| format!("{} earlier bytes, codes {:?}", pre, &codes[..codes.len().min(12)]));
        let cs = sut::to_codes(&codes);
        let tr = match what {
            What::Restore => check_restore(&tech, &cs),
            What::Entries => check_trace_entries(&tech, &cs),
        }
        .map_err(|e| format!("technique {} with {} earlier bytes of {}, codes {:?}: {}", t.name, pre, all.len(), &codes[..codes.len().min(12)], e))?;
        check_tracer_of(t, &all, pre, &cs, what).map_err(|e| format!("technique {} with {} earlier bytes of {}, codes {:?}: {}", t.name, pre, all.len(), &codes[..codes.len().min(12)], e))?;
        ok("ok", mix(fnv(&all[pre..]), fnv(format!("{:?}", tr).as_bytes())))
    })
}

/// Data whose last part has its longest earlier match of chosen lengths at its first, second and third byte.
/// Returns the data and where the last part starts.
pub fn lookahead_data(ch: &Ch, th: bool) -> (Vec<u8>, usize) {
    let l0 = *ch.of(&[3usize, 4]);
    let l1 = *ch.of(&[0usize, 3, 4, 5, 6]);
    let l2 = *ch.of(&[0usize, 4, 5, 6, 7]);
    let l3 = *ch.of(&[0usize, 4]);
    // the skipped bytes may be equal or not
    let tail: &[u8] = if ch.flag() { b"abcdefghijk" } else { b"aabcdefghij" };
    let tail = &tail[..if th { 9 + ch.pick(3) } else { *ch.of(&[9, 11]) }];
    let mut all = vec![b'-'];
    let mut parts = vec![(0, l0), (1, l1), (2, l2), (3, l3)];
    if ch.flag() {
        parts.reverse();
    }
    for (i, (at, l)) in parts.into_iter().enumerate() {
        all.extend(&tail[at..at + l]);
        all.push(b'0' + i as u8);
    }
    let start = all.len();
    all.extend(tail);
    (all, start)
}

/// `n` bytes: pieces that never occurred before, between copies of earlier pieces at varied (also extreme) distances.
pub fn long_data(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let mut x = 12345u32;
    let mut i = 0usize;
    while v.len() < n {
        for _ in 0..20 + i % 7 {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            v.push((x >> 23) as u8);
        }
        let d = match i % 6 {
            0 => 32768,
            1 => 32767,
            2 => 32769,
            3 => 40 + i % 50,
            4 => 4096,
            _ => 1 + (i * 7919) % 32768,
        };
        if d <= v.len() {
            let l = match i % 40 {
                39 => 300,
                k => 3 + k % 14,
            };
            for _ in 0..l {
                v.push(v[v.len() - d]);
            }
        }
        i += 1;
    }
    v.truncate(n);
    v
}

/// A code sequence for all of `all[pre..]` in one of four ways.
fn long_codes(tech: &Technique, all: &[u8], pre: usize, way: usize) -> Vec<Code> {
    let mut sc = tech.scanner();
    let mut out = vec![];
    let mut pos = pre;
    let mut k = 0usize;
    while pos < all.len() {
        let pick = match way {
            // literals only
            0 => vec![Code::Literal(all[pos])],
            1 => sc.codes(),
            // every 50th code, or every one after a boundary, is a literal instead
            2 => {
                let g = sc.codes();
                if k % 50 == 49 || pos == 32768 || pos == 65536 {
                    vec![Code::Literal(all[pos])]
                } else {
                    g
                }
            }
            // every 40th guess is cut short
            _ => {
                let g = sc.codes();
                match g[0] {
                    Code::Reference(r) if k % 40 < 20 && r.run() > 3 => vec![Code::Reference(sut::mkref(r.dist, 3 + (k as u16) % (r.run() - 3)))],
                    _ => g,
                }
            }
        };
        for c in pick {
            sc.feedback(c);
            pos += c.emitted_bytes() as usize;
            out.push(c);
            k += 1;
        }
    }
    out
}

fn long_stage(what: What, th: bool) -> Stage {
    stage("long", 0, "70000 and (fewer cases) 140000 bytes (thorough also 33000 and 200000), and the end of 2^18, 2^20 and 2^24 + 700 bytes (thorough more), with matches at varied distances up to 32769, earlier data of 0, 100, 32767, 32768, 32769 or 66000 bytes, coded as literals, as guessed, with overrides, or with references cut short", move |ch| {
        let n = *ch.of(if th { &[70000usize, 33000, 140000, 200000, (1 << 17) + 700, (1 << 18) + 700, (1 << 19) + 700, (1 << 20) + 700, (1 << 22) + 700, (1 << 24) + 700][..] } else { &[70000, 140000, (1 << 18) + 700, (1 << 20) + 700, (1 << 24) + 700] });
        let huge = n > 1 << 17 && n % 100 != 0;
        let few = n > 70000 && (!th || huge);
        let techs: Vec<Tech> = if th { all_techs().into_iter().chain(small_techs()).collect() } else { all_techs().into_iter().step_by(3).chain(small_techs()).collect() };
        let t = ch.of(&techs[..if few { 3 } else { techs.len() }]);
        let pre = if huge { n - 1500 } else { (*ch.of(if th { &[0usize, 100, 32767, 32768, 32769, 66000][..] } else if few { &[0] } else { &[0, 32768, 66000][..] })).min(n - 1) };
        let way = if few { 1 + ch.pick(2) } else { ch.pick(4) };
        let all = long_data(n);
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        let cs = guarded(|| long_codes(&tech, &all, pre, way))?;
        ch.note(|| format!("{} earlier of {} bytes, {}, way {}", pre, n, t.name, way));
        let mut out = all[..pre].to_vec();
        expand_codes(&mut out, &sut::to_c(&cs)).ok_or("a guess reaches before the start of the data")?;
        if out != all {
            return Err(format!("technique {} with {} earlier bytes of {}: following the guesses gives {} bytes, or others", t.name, pre, n, out.len()));
        }
        let tr = match what {
            What::Restore => check_restore(&tech, &cs),
            What::Entries => check_trace_entries(&tech, &cs),
        }
        .map_err(|e| format!("technique {} with {} earlier bytes of {}, way {}: {}", t.name, pre, n, way, e))?;
        if way == 1 && tr.iter().any(|x| !sut::correct(x)) {
            return Err("own predictions do not trace to 'correct' only".into());
        }
        ok("ok", mix(tr.len() as u64, tr.iter().filter(|x| sut::correct(x)).count() as u64))
    })
}

/// So many codes that a count of entries leaves 16 bits, nearly all of them of one kind.
fn many_stage(what: What, th: bool) -> Stage {
    let techs: Vec<Tech> = if th { all_techs() } else { all_techs().into_iter().step_by(6).collect() };
    stage("many", 0, "blocks of 32766 to 131073 codes over data of period 3000, all but the last few wrongly guessed literals, wrongly guessed references, both in turn, or one of these after as many right guesses", move |ch| {
        let n = *ch.of(if th { &[65535usize, 65536, 65537, 65538, 32766, 32767, 32768, 32769, 70000, 131071, 131072, 131073][..] } else { &[65535, 65537, 131073] });
        let kind = ch.pick(5);
        let t = ch.of(&techs[..]);
        let pre = *ch.of(&[3000usize, 40000]);
        if kind > 0 && n > 70000 && !th {
            return ok("skipped-in-quick", 0);
        }
        let mut codes: Vec<C> = vec![];
        for i in 0..n {
            codes.push(match kind {
                0 => C::L(0),
                1 => r(3000, 3),
                2 => if i % 2 == 0 { C::L(0) } else { r(3000, 3) },
                3 => if i < 4000 { r(3000, 258) } else { C::L(0) },
                _ => if i < 4000 { r(3000, 258) } else { r(3000, 4) },
            });
        }
        let more: usize = codes.iter().map(|c| match c { C::L(_) => 1, C::R { len, .. } => *len as usize }).sum();
        let all: Vec<u8> = random_bytes(3000).into_iter().cycle().take(pre + more).collect();
        // the literals are the bytes of the data
        let mut at = pre;
        for c in codes.iter_mut() {
            match c {
                C::L(b) => {
                    *b = all[at];
                    at += 1;
                }
                C::R { len, .. } => at += *len as usize,
            }
        }
        ch.note(|| format!("{} codes of kind {}, {}, {} earlier bytes", n, kind, t.name, pre));
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        let cs = sut::to_codes(&codes);
        let tr = match what {
            What::Restore => check_restore(&tech, &cs),
            What::Entries => check_trace_entries(&tech, &cs),
        }
        .map_err(|e| format!("{} codes of kind {}, technique {}, {} earlier bytes: {}", n, kind, t.name, pre, e))?;
        ok("ok", mix(tr.len() as u64, tr.iter().filter(|x| sut::correct(x)).count() as u64))
    })
}

/// The data to come stands at two distances; the codes use one or the other (or another length): told apart whatever the two have in common.
fn twins_stage(th: bool, what: What) -> Stage {
    let techs: Vec<Tech> = if th { all_techs() } else { all_techs().into_iter().step_by(6).collect() };
    stage("twins", 0, "the upcoming bytes stand at two distances whose difference is any power of two, a multiple of 256 or near 32768, the nearer 258 to 32512 back; the code refers to either, in whole or at 9 other lengths", move |ch| {
        let mut diffs: Vec<usize> = (0..16).map(|i| 1usize << i).collect();
        diffs.extend((3..128).step_by(if th { 1 } else { 5 }).map(|i| i * 256));
        diffs.extend([3, 255, 257, 32000, 32509, 32510]);
        let len = *ch.of(&[258usize, 20, 3]);
        let diff = *ch.of(&diffs);
        let near = *ch.of(&[258usize, 300, 4095, 4096, 4097, 16384, 32511, 32512]);
        if diff < len || near + diff > 32768 {
            return ok("no-room", 0);
        }
        let far = near + diff;
        let before = 40;
        let mut all = random_bytes(before + far + len + 8);
        let (a, b, p) = (before, before + diff, before + far);
        for i in 0..len {
            all[b + i] = all[a + i];
        }
        for i in 0..len {
            all[p + i] = all[a + i];
        }
        // the bytes after each copy differ
        for (k, at) in [a, b, p].into_iter().enumerate() {
            if at + len != b && at + len != p {
                all[at + len] = k as u8;
            }
        }
        let mut cs: Vec<Vec<C>> = vec![];
        for d in [near, far] {
            cs.push(vec![r(d as u16, len as u16)]);
            if len > 3 {
                for l in [3usize, 4, 5, 10, len / 2, len - 2, len - 1] {
                    if l >= 3 {
                        cs.push(vec![r(d as u16, l as u16)]);
                    }
                }
            }
        }
        ch.note(|| format!("{} bytes at distances {} and {}", len, near, far));
        let mut h = fnv(&all[p..]);
        let mut runs = 0;
        for pre in [p, 0] {
            for t in &techs {
                if pre == 0 && runs > 0 && !th {
                    break;
                }
                let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
                let tech = Technique::new(t.cfg, &refs);
                for c in &cs {
                    let mut codes: Vec<C> = all[pre..p].iter().map(|&b| C::L(b)).collect();
                    let mut at = p;
                    for x in c {
                        codes.push(x.clone());
                        if let C::R { len, .. } = x {
                            at += *len as usize;
                        }
                    }
                    codes.extend(all[at..].iter().map(|&b| C::L(b)));
                    let cs = sut::to_codes(&codes);
                    let tr = match what {
                        What::Restore => check_restore(&tech, &cs),
                        What::Entries => check_trace_entries(&tech, &cs),
                    }
                    .map_err(|e| format!("technique {}, {} bytes both {} and {} back, {} earlier, code {:?}: {}", t.name, len, near, far, pre, c, e))?;
                    runs += 1;
                    h = mix(h, fnv(format!("{:?}", &tr[tr.len().min(3)..]).as_bytes()));
                }
            }
        }
        ch.inner(runs - 1, runs - 1);
        ok("ok", h)
    })
}
fn random_bytes(n: usize) -> Vec<u8> {
    let mut x = 0x2545_f491u32;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 11) as u8
        })
        .collect()
}

fn lookahead_stage(th: bool, what: What) -> Stage {
    let techs: Vec<Tech> = small_techs().into_iter().filter(|t| t.p.three || t.name.starts_with("lookahead") || t.name == "gzip6").collect();
    stage("lookahead", 0, "data whose last 9 to 11 bytes have matches of every chosen length (0, 3 to 7) at their first four positions x every technique that guesses several codes at once x every code sequence for them (earlier bytes as literals or as earlier data)", move |ch| {
        let (all, start) = lookahead_data(ch, th);
        let t = ch.of(&techs);
        let pre = if ch.flag() { start } else { 0 };
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        ch.note(|| format!("{} {} of {}", t.name, hex(&all[start..]), hex(&all)));
        let mut first: Vec<C> = all[pre..start].iter().map(|&b| C::L(b)).collect();
        let (mut runs, mut h) = (0, fnv(&all));
        tilings(&all, start, &mut first, &mut |codes| {
            runs += 1;
            let cs = sut::to_codes(codes);
            let tr = match what {
                What::Restore => check_restore(&tech, &cs),
                What::Entries => check_trace_entries(&tech, &cs),
            }
            .map_err(|e| format!("{}: {}", case(&all, pre, t, codes), e))?;
            h = mix(h, fnv(format!("{:?}", tr).as_bytes()));
            Ok(())
        })?;
        ch.inner(runs - 1, runs - 1);
        ok("ok", h)
    })
}

/// tracer::try_gzip, against the technique over the same data.
fn check_tracer(level: u8, tech: &Technique, all: &[u8], pre: usize, cs: &[Code], what: What) -> Result<Vec<Trace>, String> {
    let tr = guarded(|| tracer::try_gzip(level, &all[..pre], &all[pre..], cs))?;
    match what {
        What::Restore => {
            let back = guarded(|| trace::restore(&tr, tech))?;
            if !sut::same_codes(&back, cs) {
                let at = (0..back.len().max(cs.len())).find(|&i| match (back.get(i), cs.get(i)) { (Some(a), Some(b)) => !sut::same_code(a, b), _ => true }).unwrap();
                return Err(format!("the tracer's trace is restored with another code {}: {:?} instead of {:?}", at, back.get(at), cs.get(at)));
            }
        }
        What::Entries => {
            let want = check_trace_entries(tech, cs)?;
            if !sut::same_trace(&want, &tr) {
                let at = (0..want.len().max(tr.len())).find(|&i| match (want.get(i), tr.get(i)) { (Some(a), Some(b)) => !sut::same_entry(a, b), _ => true }).unwrap();
                return Err(format!("entry {} of the tracer's trace is {:?}, expected {:?}", at, tr.get(at), want.get(at)));
            }
        }
    }
    Ok(tr)
}
/// The tracer at the level a technique is named after.
fn check_tracer_of(t: &Tech, all: &[u8], pre: usize, cs: &[Code], what: What) -> Result<(), String> {
    let Some(level) = t.name.strip_prefix("gzip").and_then(|l| l.parse::<u8>().ok()) else { return Ok(()) };
    let limit = Params::gzip(level).chain_all as u16;
    let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], limit);
    check_tracer(level, &Technique::new(t.cfg, &refs), all, pre, cs, what)?;
    Ok(())
}
/// The bytes to come stand once in earlier data, at any extreme distance and nowhere else; they are coded as literals, as a reference, or as a mixture.
fn far_tracer_stage(what: What) -> Stage {
    stage("far-tracer", 0, "tracer::try_gzip and the technique at levels 1 to 9: earlier data of 32506 to 100000 bytes without repetitions, then 3 to 258 bytes from 1 to 32768 back (15 distances), after 0 to 2 other bytes, coded as literals, a reference, a shorter reference, or a literal and a reference", move |ch| {
        let level = 1 + ch.pick(9) as u8;
        let pre = *ch.of(&[32768usize, 32506, 32767, 32769, 33000, 65536, 100000]);
        let d = *ch.of(&[32768usize, 1, 4095, 4096, 4097, 16384, 32505, 32506, 32507, 32508, 32510, 32511, 32512, 32766, 32767]);
        let len = *ch.of(&[4usize, 3, 5, 258]);
        let lead = ch.pick(3);
        let way = ch.pick(4);
        if d > pre + lead || d < len {
            return ok("no-room", 0);
        }
        let mut all = far_bytes(pre);
        for k in 0..lead {
            all.push(250 + k as u8);
        }
        let at = all.len();
        for i in 0..len {
            all.push(all[at - d + i]);
        }
        all.push(255);
        let mut codes: Vec<C> = all[pre..at].iter().map(|&b| C::L(b)).collect();
        let rest = match way {
            0 => 0,
            1 => {
                codes.push(r(d as u16, len as u16));
                len
            }
            2 => {
                codes.push(r(d as u16, 3));
                3
            }
            _ => {
                codes.push(C::L(all[at]));
                if len > 3 {
                    codes.push(r(d as u16, len as u16 - 1));
                    len
                } else {
                    1
                }
            }
        };
        codes.extend(all[at + rest..].iter().map(|&b| C::L(b)));
        ch.note(|| format!("level {}, {} earlier bytes, then {} bytes from {} back after {} others, way {}", level, pre, len, d, lead, way));
        let cs = sut::to_codes(&codes);
        let limit = Params::gzip(level).chain_all as u16;
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], limit);
        let tech = Technique::new(Config::gzip(level), &refs);
        let tr = check_tracer(level, &tech, &all, pre, &cs, what).map_err(|e| format!("level {}, {} earlier bytes, then {} bytes from {} back after {} others, codes {:?}: {}", level, pre, len, d, lead, &codes[..codes.len().min(12)], e))?;
        ok("ok", fnv(format!("{:?}", tr).as_bytes()))
    })
}
/// `n` bytes below 250 of which no three stand twice within 2^20 (their hash may collide).
pub fn far_bytes(n: usize) -> Vec<u8> {
    // triples (x, y, z) of a counter in base 125, first byte >= 125, others below
    let mut v = Vec::with_capacity(n + 3);
    let mut k = 0usize;
    while v.len() < n {
        v.push(125 + (k % 125) as u8);
        v.push((k / 125 % 125) as u8);
        v.push((k / 15625 % 125) as u8 ^ (k % 64) as u8);
        k += 1;
    }
    v.truncate(n);
    v
}

fn try_gzip_stage(n: usize, what: What) -> Stage {
    stage("try-gzip", 0, "tracer::try_gzip at levels 1 to 9: every binary string up to the bound, every split, every code sequence", move |ch| {
        let level = 1 + ch.pick(9) as u8;
        let all = word(ch, n, b"ab");
        let mut runs = 0;
        let mut h = fnv(&all);
        ch.note(|| format!("level {} {}", level, hex(&all)));
        for pre in 0..=all.len() {
            let cfg = Config::gzip(level);
            let limit = Params::gzip(level).chain_all as u16;
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], limit);
            let tech = Technique::new(cfg, &refs);
            tilings(&all, pre, &mut vec![], &mut |codes| {
                runs += 1;
                let cs = sut::to_codes(codes);
                let e = |e: String| format!("level {} earlier {} data {} codes {:?}: {}", level, hex(&all[..pre]), hex(&all[pre..]), codes, e);
                let tr = check_tracer(level, &tech, &all, pre, &cs, what).map_err(e)?;
                h = mix(h, tr.len() as u64);
                Ok(())
            })?;
        }
        ch.inner(runs, runs);
        ok("ok", h)
    })
}

fn c08(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let mut v = vec![
        tile_stage("binary", if th { 11 } else { 9 }, b"ab", small_techs(), What::Restore),
        tile_stage("ternary", if th { 9 } else { 7 }, b"abc", small_techs(), What::Restore),
        tile_stage("colliding", if th { 8 } else { 7 }, &COLLIDING, small_techs(), What::Restore),
        tile_stage("colliding2", if th { 10 } else { 8 }, &COLLIDING2, small_techs(), What::Restore),
        tile_stage("levels", if th { 10 } else { 8 }, b"ab", all_techs(), What::Restore),
        try_gzip_stage(if th { 10 } else { 8 }, What::Restore),
        lookahead_stage(th, What::Restore),
        twins_stage(th, What::Restore),
        steer_stage("steered", 1, all_techs(), What::Restore),
        steer_stage("steered-small", if th { 3 } else { 2 }, small_techs(), What::Restore),
        far_stage(What::Restore, all_techs()),
        far_tracer_stage(What::Restore),
        long_stage(What::Restore, th),
        many_stage(What::Restore, th),
    ];
    v.push(stage("random-trace-order", 0, "restore from a trace read back from its serialised form (every binary string up to 8, every code sequence)", move |ch| {
        let all = word(ch, if th { 10 } else { 8 }, b"ab");
        let pre = ch.pick(all.len() + 1);
        let t = *ch.of(&small_techs());
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        let mut runs = 0;
        tilings(&all, pre, &mut vec![], &mut |codes| {
            runs += 1;
            let cs = sut::to_codes(codes);
            let f = || -> Result<(), String> {
                let tr = trace::trace(&cs, &tech);
                let w = serialise_trace::write(&tr);
                let back = serialise_trace::read(&w[..]).map_err(|e| e.to_string())?;
                let got = trace::restore(&back, &tech);
                if !sut::same_codes(&got, &cs) {
                    return Err(format!("restored as {:?}", got));
                }
                let v = trace::validate(&cs, &tech);
                if !sut::same_trace(&v, &tr) {
                    return Err("validate returns another trace".into());
                }
                Ok(())
            };
            guarded(f).and_then(|x| x).map_err(|e| format!("{}: {}", case(&all, pre, &t, codes), e))
        })?;
        ch.inner(runs, runs);
        ok("ok", mix(fnv(&all), pre as u64))
    }));
    v
}

fn c09(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    vec![
        tile_stage("binary", if th { 11 } else { 9 }, b"ab", small_techs(), What::Entries),
        tile_stage("ternary", if th { 9 } else { 7 }, b"abc", small_techs(), What::Entries),
        tile_stage("colliding", if th { 8 } else { 7 }, &COLLIDING, small_techs(), What::Entries),
        tile_stage("colliding2", if th { 10 } else { 8 }, &COLLIDING2, small_techs(), What::Entries),
        tile_stage("levels", if th { 10 } else { 8 }, b"ab", all_techs(), What::Entries),
        try_gzip_stage(if th { 10 } else { 8 }, What::Entries),
        lookahead_stage(th, What::Entries),
        twins_stage(th, What::Entries),
        steer_stage("steered", 1, all_techs(), What::Entries),
        steer_stage("steered-small", if th { 3 } else { 2 }, small_techs(), What::Entries),
        far_stage(What::Entries, all_techs()),
        far_tracer_stage(What::Entries),
        long_stage(What::Entries, th),
        many_stage(What::Entries, th),
        stage("own-predictions", 0, "the guesser's own code sequence traces to 'correct' only: every binary string up to the bound, structured texts, every split and technique", move |ch| {
            let all = match ch.pick(2) {
                0 => word(ch, if th { 14 } else { 11 }, b"ab"),
                _ => text(ch.pick(8)),
            };
            let techs: Vec<Tech> = small_techs().into_iter().chain(all_techs()).collect();
            let mut n = 0;
            let step = if all.len() > 20 { all.len() / 7 } else { 1 };
            for pre in (0..=all.len()).step_by(step) {
                for t in &techs {
                    n += 1;
                    let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
                    let tech = Technique::new(t.cfg, &refs);
                    let mut sc = tech.scanner();
                    let mut codes = vec![];
                    while sc.more_data() {
                        for c in sc.codes() {
                            sc.feedback(c);
                            codes.push(c);
                        }
                    }
                    let tr = trace::trace(&codes, &tech);
                    if tr.len() != codes.len() || tr.iter().any(|x| !sut::correct(x)) {
                        return Err(format!("technique {} earlier {} data {}: own predictions {:?} trace to {:?}", t.name, hex(&all[..pre]), hex(&all[pre..]), codes, tr));
                    }
                }
            }
            ch.inner(n, n);
            ok("correct-only", fnv(&all))
        }),
    ]
}

// ------------------------------------------------------------------------------------------ C10, C11

#[derive(Clone, Debug, PartialEq)]
enum E {
    Lit,
    Ref(u16, u16),
    Ok(usize),
}
fn to_traces(es: &[E]) -> Vec<Trace> {
    let mut v = vec![];
    for e in es {
        match *e {
            E::Lit => v.push(Trace::ActuallyLiteral),
            E::Ref(d, l) => v.push(Trace::Actually(sut::mkref(d, l))),
            E::Ok(n) => v.extend(std::iter::repeat(Trace::Correct).take(n)),
        }
    }
    v
}
fn size(tr: &[Trace]) -> usize {
    let mut n = 0;
    let mut run = 0usize;
    for t in tr {
        match t {
            Trace::Correct => run += 1,
            other => {
                n += 2 * ((run + 32766) / 32767);
                run = 0;
                n += if matches!(other, Trace::ActuallyLiteral) { 2 } else { 3 };
            }
        }
    }
    n + 2 * ((run + 32766) / 32767)
}
fn round_trip(tr: &[Trace], what: &str) -> Result<Vec<u8>, String> {
    let w = guarded(|| serialise_trace::write(tr)).map_err(|e| format!("{}: {}", what, e))?;
    if w.len() != size(tr) {
        return Err(format!("{}: {} bytes, expected {}", what, w.len(), size(tr)));
    }
    let back = guarded(|| serialise_trace::read(&w[..])).map_err(|e| format!("{}: {}", what, e))?.map_err(|e| format!("{}: written form {} cannot be read: {}", what, hex(&w), e))?;
    if !sut::same_trace(&back, tr) {
        let at = (0..back.len().max(tr.len())).find(|&i| match (back.get(i), tr.get(i)) { (Some(a), Some(b)) => !sut::same_entry(a, b), _ => true }).unwrap();
        return Err(format!("{}: entry {} reads back as {:?} instead of {:?}", what, at, back.get(at), tr.get(at)));
    }
    let v = guarded(|| serialise_trace::verify(tr)).map_err(|e| format!("{}: {}", what, e))?;
    if v != w {
        return Err(format!("{}: verify returns other bytes", what));
    }
    Ok(w)
}

fn c10(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let menu = vec![E::Lit, E::Ref(1, 3), E::Ref(32768, 258), E::Ref(32767, 4), E::Ref(255, 258), E::Ref(256, 3), E::Ok(1), E::Ok(2), E::Ok(255), E::Ok(256), E::Ok(32766), E::Ok(32767), E::Ok(32768), E::Ok(65534), E::Ok(65535)];
    let d = if th { 5 } else { 4 };
    vec![
        stage("references", 0, "every distance 1-32768 with every length 3-258, alone and between correct guesses", |ch| {
            let d = 1 + ch.pick(32768) as u16;
            let one: Vec<Trace> = (3..=258).map(|l| Trace::Actually(sut::mkref(d, l))).collect();
            let w = round_trip(&one, &format!("distance {} with every length", d))?;
            let mixed: Vec<Trace> = one.iter().step_by(17).flat_map(|r| [Trace::Correct, *r, Trace::ActuallyLiteral]).collect();
            round_trip(&mixed, &format!("distance {} mixed", d))?;
            ch.inner(255, 255);
            ok("same", fnv(&w))
        }),
        stage("runs", 0, "every number of consecutive correct guesses around the multiples of 32767 up to 4 x 32767 and around powers of two (thorough: every number up to 70000), alone, before and after an override", move |ch| {
            let n = if th {
                ch.pick(70001)
            } else {
                let mut v: Vec<usize> = (0..20).collect();
                for k in 1..5 {
                    v.extend(k * 32767 - 4..k * 32767 + 8);
                }
                for k in [127usize, 128, 255, 256, 1024, 16383, 16384] {
                    v.extend([k - 1, k, k + 1]);
                }
                *ch.of(&v)
            };
            let o = match ch.pick(4) {
                0 => vec![E::Ok(n)],
                1 => vec![E::Lit, E::Ok(n)],
                2 => vec![E::Ok(n), E::Ref(5, 9)],
                _ => vec![E::Ref(32768, 3), E::Ok(n), E::Lit, E::Ok(1)],
            };
            let w = round_trip(&to_traces(&o), &format!("{:?}", o))?;
            ch.note(|| format!("{:?}: {}", o, hex(&w)));
            ok("same", fnv(&w))
        }),
        stage("long-runs", 0, "runs of 2^17 to 2^24 (thorough 2^26) correct guesses, and one more or less, alone, before and after an override", move |ch| {
            let mut v = vec![];
            for k in 17..=if th { 26 } else { 24 } {
                v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
            }
            for k in [31, 32, 33, 511, 512, 513] {
                v.push(k * 32767);
            }
            let n = *ch.of(&v);
            let o = match ch.pick(3) {
                0 => vec![E::Ok(n)],
                1 => vec![E::Lit, E::Ok(n)],
                _ => vec![E::Ok(n), E::Ref(5, 9), E::Ok(2)],
            };
            let w = round_trip(&to_traces(&o), &format!("{:?}", o))?;
            ch.note(|| format!("{:?}", o));
            ok("same", fnv(&w))
        }),
        stage("sequences", 0, "every sequence of up to 4 (thorough 5) items: overrides at extremes and runs of 1 to 65535 correct guesses", move |ch| {
            let n = ch.pick(d + 1);
            let mut total = 0;
            let mut o: Vec<E> = vec![];
            for _ in 0..n {
                // keep very long runs to at most two
                let m: Vec<E> = menu.iter().filter(|e| if let E::Ok(k) = e { *k < 1000 || total < 2 } else { true }).cloned().collect();
                let e = ch.of(&m).clone();
                if let E::Ok(k) = e {
                    if k >= 1000 {
                        total += 1;
                    }
                }
                o.push(e);
            }
            let w = round_trip(&to_traces(&o), &format!("{:?}", o))?;
            ch.note(|| format!("{:?}: {}", o, hex(&w)));
            ok("same", fnv(&w))
        }),
        stage("long", 0, "4095 to 70000 (thorough 300000) entries of six repeating shapes", move |ch| {
            let mut ns = vec![4095usize, 4096, 8192, 21845, 21846, 32766, 32767, 32768, 65535, 65536, 65537, 70000];
            if th {
                ns.extend([131072, 300000]);
            }
            let n = *ch.of(&ns);
            let shapes: Vec<Vec<Trace>> = vec![
                vec![Trace::ActuallyLiteral],
                vec![Trace::Actually(sut::mkref(32768, 258))],
                vec![Trace::ActuallyLiteral, Trace::Correct],
                vec![Trace::Actually(sut::mkref(257, 3)), Trace::Correct, Trace::Correct],
                vec![Trace::ActuallyLiteral, Trace::Actually(sut::mkref(1, 255))],
                vec![Trace::Correct, Trace::Correct, Trace::Correct, Trace::ActuallyLiteral, Trace::Actually(sut::mkref(256, 10))],
            ];
            let s = ch.pick(shapes.len());
            let tr: Vec<Trace> = shapes[s].iter().cycle().take(n).cloned().collect();
            let w = round_trip(&tr, &format!("{} entries of shape {:?}", n, shapes[s]))?;
            ok("same", fnv(&w))
        }),
        stage("short", 0, "every sequence of up to 9 (thorough 12) entries out of correct, literal and two references", move |ch| {
            let n = ch.pick(if th { 11 } else { 9 });
            let tr: Vec<Trace> = (0..n)
                .map(|_| match ch.pick(4) {
                    0 => Trace::Correct,
                    1 => Trace::ActuallyLiteral,
                    2 => Trace::Actually(sut::mkref(1, 3)),
                    _ => Trace::Actually(sut::mkref(32768, 258)),
                })
                .collect();
            let w = round_trip(&tr, &format!("{:?}", tr))?;
            ok("same", fnv(&w))
        }),
    ]
}

/// The reference reader. None: cut inside an entry.
fn model_read(b: &[u8]) -> Option<Vec<E>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if i + 1 >= b.len() {
            return None;
        }
        let w = b[i] as u16 | (b[i + 1] as u16) << 8;
        i += 2;
        if w == 0 {
            v.push(E::Lit);
        } else if w <= 32768 {
            let l = *b.get(i)?;
            i += 1;
            v.push(E::Ref(w, l as u16 + 3));
        } else {
            v.push(E::Ok((w - 32768) as usize));
        }
    }
    Some(v)
}
fn same_entries(got: &[Trace], want: &[E]) -> Result<(), String> {
    let mut i = 0;
    for e in want {
        match *e {
            E::Lit => {
                if !matches!(got.get(i), Some(Trace::ActuallyLiteral)) {
                    return Err(format!("entry {} is {:?}, expected a literal", i, got.get(i)));
                }
                i += 1;
            }
            E::Ref(d, l) => {
                match got.get(i) {
                    Some(Trace::Actually(r)) if r.dist == d && r.run() == l => {}
                    x => return Err(format!("entry {} is {:?}, expected ({}, {})", i, x, d, l)),
                }
                i += 1;
            }
            E::Ok(n) => {
                for _ in 0..n {
                    if !matches!(got.get(i), Some(Trace::Correct)) {
                        return Err(format!("entry {} is {:?}, expected correct", i, got.get(i)));
                    }
                    i += 1;
                }
            }
        }
    }
    if i != got.len() {
        return Err(format!("{} entries, expected {}", got.len(), i));
    }
    Ok(())
}
fn check_read(b: &[u8]) -> Result<&'static str, String> {
    let got = guarded(|| serialise_trace::read(b)).map_err(|e| format!("{}: {}", hex(b), e))?;
    match (model_read(b), got) {
        (None, Err(_)) => Ok("cut"),
        (None, Ok(v)) => Err(format!("{} ends inside an entry, but reads as {} entries", hex(b), v.len())),
        (Some(_), Err(e)) => Err(format!("{} consists of whole entries, but is refused: {}", hex(b), e)),
        (Some(w), Ok(v)) => {
            same_entries(&v, &w).map_err(|e| format!("{}: {}", hex(b), e))?;
            Ok("whole")
        }
    }
}

fn c11(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let metas: Vec<Vec<u8>> = vec![
        vec![],
        vec![0, 0],
        vec![1, 0, 0],
        vec![0, 0x80, 255],
        vec![1, 0x80],
        vec![0xff, 0xff],
        vec![0, 0, 1, 0x80, 0, 1, 2, 3, 0x80, 0, 0],
        vec![0xff, 0x7f, 0x10, 0xff, 0xff, 0, 0, 0xff, 0x80],
        vec![0, 0, 0, 0, 0, 0x80, 0, 2, 0x80, 9, 0, 9, 9, 0, 9],
    ];
    let m2 = metas.clone();
    vec![
        stage("bytes-2", 0, "every input of 0 to 2 bytes", |ch| {
            let n = ch.pick(3);
            let b: Vec<u8> = (0..n).map(|_| ch.pick(256) as u8).collect();
            let l = check_read(&b)?;
            ok(l, fnv(&b))
        }),
        stage("bytes-3", 0, "every input of 3 bytes", move |ch| {
            let (x, y) = (ch.pick(256) as u8, ch.pick(256) as u8);
            let mut l = "";
            let w = x as u16 | (y as u16) << 8;
            // a long run of correct guesses costs time: its third byte (always cut) is taken from a few values
            let third: Vec<u8> = if w > 32768 + 64 && !th { vec![0, 1, 0x7f, 0x80, 0xff] } else { (0..=255).collect() };
            for &z in &third {
                l = check_read(&[x, y, z])?;
            }
            ch.inner(third.len() as u64 - 1, third.len() as u64 - 1);
            ok(l, w as u64)
        }),
        stage("words", 0, "every sequence of up to 7 (thorough 9) bytes out of 00 01 02 7f 80 ff", move |ch| {
            let n = ch.pick(if th { 9 } else { 7 } + 1);
            let b: Vec<u8> = (0..n).map(|_| *ch.of(&[0u8, 1, 0x80, 2, 0xff, 0x7f])).collect();
            // ff ff runs are covered elsewhere; keep each input below 3 long runs
            let long = b.windows(2).filter(|w| w[1] == 0xff).count();
            if long > 2 {
                return ok("skipped-long", 0);
            }
            let l = check_read(&b)?;
            ok(l, fnv(&b))
        }),
        stage("reads", if th { 4 } else { 3 }, "metadata of several shapes, every pattern of up to 3 (thorough 4) short or interrupted reads, and 14 behaviours from beginning to end", move |ch| {
            let b = ch.of(&metas);
            let cut = ch.pick(b.len() + 1);
            let m = *ch.of(&MODES);
            let mut e = EnvRead::new(&b[..cut], ch, m);
            // with the unusual ones no further deviations
            e.deviate = matches!(m, Mode::Full | Mode::One | Mode::Stutter);
            let got = serialise_trace::read(&mut e);
            let calls = e.calls as u64;
            match (model_read(&b[..cut]), got) {
                (None, Err(_)) => ok("cut", mix(fnv(&b[..cut]), calls)),
                (Some(w), Ok(v)) => {
                    same_entries(&v, &w)?;
                    ok("whole", mix(fnv(&b[..cut]), calls))
                }
                (None, Ok(_)) => Err(format!("{} ends inside an entry but is accepted", hex(&b[..cut]))),
                (Some(_), Err(x)) => Err(format!("{} is refused: {}", hex(&b[..cut]), x)),
            }
        }),
        stage("long-runs", 0, "up to 1025 (thorough 2049) times the longest run of correct guesses, before, after and around an override, whole or cut inside the last entry", move |ch| {
            let k = *ch.of(if th { &[31usize, 32, 33, 64, 65, 128, 129, 256, 257, 512, 513, 1024, 1025, 2048, 2049][..] } else { &[31, 32, 33, 64, 65, 128, 129, 512, 513, 1025][..] });
            let at = ch.pick(3);
            let mut b = vec![];
            for i in 0..k {
                if (at == 1 && i == 0) || (at == 2 && i == k / 2) {
                    b.extend([5u8, 0, 9]);
                }
                b.extend([0xff, 0xff]);
            }
            match ch.pick(4) {
                0 => {}
                1 => b.extend([2, 0x80]),
                2 => b.extend([0, 0, 1, 0, 255]),
                _ => b.extend([1, 0]),
            }
            let l = check_read(&b)?;
            ch.note(|| format!("{} x ffff, place {}", k, at));
            ok(l, mix(fnv(&b), k as u64))
        }),
        stage("long", 0, "metadata whose size passes every power of two from 512 to 65536 (thorough 1 MiB), with entries at every alignment to it, whole or cut at every byte near the end, from whole, byte-wise and stuttering sources", move |ch| {
            let k = ch.pick(if th { 12 } else { 8 });
            let size = 512usize << k;
            let mut b: Vec<u8> = match ch.pick(4) {
                0 => vec![],
                1 => vec![0, 0],
                2 => vec![7, 1, 200],
                _ => vec![0, 0, 9, 0, 1],
            };
            let unit: &[u8] = *ch.of(&[&[0u8, 0][..], &[2, 0x80], &[0xff, 0x7f, 3], &[0, 0x80, 255, 1, 0x80]]);
            while b.len() < size + 4 {
                b.extend_from_slice(unit);
            }
            let cut = size - 4 + ch.pick(9);
            let b = &b[..cut.min(b.len())];
            let m = *ch.of(&[Mode::Full, Mode::One, Mode::Stutter]);
            let mut e = EnvRead::new(b, ch, m);
            e.deviate = false;
            let got = guarded(|| serialise_trace::read(&mut e))?;
            match (model_read(b), got) {
                (None, Err(_)) => ok("cut", mix(fnv(b), b.len() as u64)),
                (Some(w), Ok(v)) => {
                    same_entries(&v, &w).map_err(|x| format!("{} bytes of metadata: {}", b.len(), x))?;
                    ok("whole", mix(fnv(b), b.len() as u64))
                }
                (None, Ok(v)) => Err(format!("{} bytes of metadata that end inside an entry read as {} entries", b.len(), v.len())),
                (Some(_), Err(x)) => Err(format!("{} bytes of whole entries are refused: {}", b.len(), x)),
            }
        }),
        stage("errors", 1, "read errors of 35 kinds at every byte of the metadata, for good or only once, with up to one short read, are reported", move |ch| {
            let b = ch.of(&m2);
            let at = ch.pick(b.len() + 1);
            // (a source that says "unexpected end" is at its end)
            let kinds: Vec<ErrorKind> = ALL_KINDS.iter().cloned().filter(|k| *k != ErrorKind::UnexpectedEof).collect();
            let k = *ch.of(&kinds);
            let mut e = EnvRead::new(b, ch, Mode::Full);
            e.fail_at = Some((at, k));
            e.once = ch.flag();
            let got = serialise_trace::read(&mut e);
            if got.is_ok() {
                return Err(format!("{}: a read error ({:?}) at byte {} is not reported", hex(b), k, at));
            }
            ok("reported", mix(fnv(b), at as u64))
        }),
    ]
}

// ------------------------------------------------------------------------------------------ C12

fn spec_list(all: &[u8], pos: usize, obscured: &[(usize, u16)]) -> Option<(Vec<(u16, u16)>, usize)> {
    if pos + 2 >= all.len() {
        return None;
    }
    let mut v = vec![];
    let mut colliders = 0;
    let mut hidden = vec![false; if obscured.is_empty() { 0 } else { pos }];
    for &(s, l) in obscured {
        for off in s + 1..(s + l as usize).min(pos) {
            hidden[off] = true;
        }
    }
    for off in (1..pos).rev() {
        if !hidden.is_empty() && hidden[off] {
            continue;
        }
        if hash3(&all[off..]) == hash3(&all[pos..]) {
            colliders += 1;
        }
        if pos - off <= 32768 {
            let l = run_at(all, off, pos);
            if l >= 3 {
                v.push(((pos - off) as u16, l));
            }
        }
    }
    Some((v, colliders))
}

fn check_candidates(all: &[u8], pre: usize, pos: usize, obscured: &[(usize, u16)], limit: u16, refs: &AllRefs) -> Result<usize, String> {
    let got: Option<Vec<(u16, u16)>> = guarded(|| refs.at(pos, obscured).map(|it| it.map(|r| (r.dist, r.run())).collect()))?;
    let want = spec_list(all, pos, obscured);
    let e = |m: String| format!("earlier {} data {} position {} obscured {:?} limit {}: {}", hex(&all[..pre]), hex(&all[pre..]), pos, obscured, limit, m);
    match (got, want) {
        (None, None) => Ok(0),
        // "no match possible" may be said either way
        (Some(g), None) if g.is_empty() => Ok(0),
        (None, Some((w, _))) if w.is_empty() => Ok(0),
        (Some(g), Some((w, colliders))) => {
            if colliders <= limit as usize {
                if g != w {
                    return Err(e(format!("candidates (distance, length) {:?}, expected {:?}", &g[..g.len().min(20)], &w[..w.len().min(20)])));
                }
            } else {
                if g.len() > limit as usize {
                    return Err(e(format!("{} candidates although the limit is {}", g.len(), limit)));
                }
                if !w.starts_with(&g) {
                    return Err(e(format!("candidates {:?} are not the nearest of {:?}", &g[..g.len().min(20)], &w[..w.len().min(20)])));
                }
            }
            Ok(g.len())
        }
        (g, w) => Err(e(format!("{:?} instead of {:?}", g, w))),
    }
}

fn cand_stage(name: &'static str, n: usize, alphabet: &'static [u8], obsc: usize) -> Stage {
    stage(name, 0, "every string up to the bound x every split x every position x every set of up to 1 or 2 obscured runs (any-two-runs: overlapping, in any order) x chain limits 1, 2, 3 and none, against a brute-force list", move |ch| {
        let all = word(ch, n, alphabet);
        let k = all.len();
        let mut runs = 0;
        let mut found = 0;
        ch.note(|| hex(&all));
        let mut sets: Vec<Vec<(usize, u16)>> = vec![vec![]];
        let ivs: Vec<(usize, u16)> = (0..k).flat_map(|s| (1..=(k - s) as u16).map(move |l| (s, l))).collect();
        for i in 0..ivs.len() {
            sets.push(vec![ivs[i]]);
            if obsc > 1 {
                for j in 0..ivs.len() {
                    // two apart in order, or (obsc = 3) any two in any order
                    if obsc == 3 || ivs[j].0 >= ivs[i].0 + ivs[i].1 as usize {
                        sets.push(vec![ivs[i], ivs[j]]);
                    }
                }
            }
        }
        for pre in 0..=k {
            for limit in [1u16, 2, 3, u16::MAX] {
                let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], limit);
                for pos in 0..k {
                    for s in &sets {
                        // only what is known so far can be obscured
                        if s.iter().any(|x| x.0 >= pos) {
                            continue;
                        }
                        runs += 1;
                        found += check_candidates(&all, pre, pos, s, limit, &refs)?;
                    }
                }
            }
        }
        ch.inner(runs, runs);
        ok(if found > 0 { "matches" } else { "no-match" }, fnv(&all))
    })
}

fn c12(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    vec![
        cand_stage("binary", if th { 12 } else { 10 }, b"ab", 1),
        cand_stage("binary-two-runs", if th { 10 } else { 8 }, b"ab", 2),
        cand_stage("any-two-runs", if th { 9 } else { 7 }, b"ab", 3),
        cand_stage("colliding", if th { 8 } else { 7 }, &COLLIDING, 1),
        cand_stage("colliding2", if th { 11 } else { 9 }, &COLLIDING2, 1),
        cand_stage("ternary", if th { 9 } else { 7 }, b"abc", 1),
        stage("long-runs", 0, "matches of length 255 to 262 and data ending early or late, at distances 1 to 300 and overlapping, every position near the target", move |ch| {
            let dist = *ch.of(&[1usize, 2, 3, 4, 5, 100, 256, 257, 258, 259, 260, 300]);
            let len = 250 + ch.pick(14);
            let tail = ch.pick(4);
            // first `dist` bytes unlike each other, then a copy of `len` bytes, then something else
            let mut all: Vec<u8> = vec![9, 8];
            all.extend((0..dist).map(|i| (i * 17 + i / 15) as u8));
            let s = all.len();
            for i in 0..len {
                all.push(all[s - dist + i]);
            }
            for i in 0..tail {
                all.push(250u8.wrapping_sub(i as u8).wrapping_add(all[all.len() - dist]));
            }
            let pre = *ch.of(&[0usize, 2, s - 1, s, s + 1]);
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
            let mut n = 0;
            for pos in s.saturating_sub(2)..all.len() {
                n += check_candidates(&all, pre, pos, &[], u16::MAX, &refs)?;
            }
            ch.inner((all.len() - s) as u64, (all.len() - s) as u64);
            ok("ok", mix(fnv(&all), n as u64))
        }),
        stage("obscured-lengths", 0, "one to three obscured runs of every length 1 to 258 at several places and gaps, every earlier position a candidate", move |ch| {
            let n = 1 + ch.pick(258);
            let m = *ch.of(&[0usize, 1, 2, 63, 64, 128, 257, 258]);
            let start = *ch.of(&[0usize, 1, 2, 3, 63, 64, 65, 200]);
            let gap = *ch.of(&[0usize, 1, 2, 7]);
            let mut obsc = vec![(start, n as u16)];
            let mut at = start + n + gap;
            if m > 0 {
                obsc.push((at, m as u16));
                at += m + gap;
                if th {
                    obsc.push((at, (259 - m) as u16));
                    at += 259 - m;
                }
            }
            let tail = *ch.of(&[0usize, 1, 2, 5, 70]);
            let pos = at + tail;
            if pos == 0 {
                return ok("nothing-before", 0);
            }
            let all = vec![b'o'; pos + *ch.of(&[3usize, 4])];
            let pre = if ch.flag() { pos } else { start };
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
            ch.note(|| format!("{} equal bytes, position {}, obscured {:?}", all.len(), pos, obsc));
            let f = check_candidates(&all, pre, pos, &obsc, u16::MAX, &refs)?;
            ok(if f > 0 { "found" } else { "none" }, mix(mix(pos as u64, pre as u64), fnv(format!("{:?}", obsc).as_bytes())))
        }),
        stage("window", 0, "a block repeated at distances 32765 to 32771 (and twice that), wherever the earlier data ends, every position of the copy, with and without obscured runs around the edges of the first one", move |ch| {
            let gap = 32765 + ch.pick(7);
            let gap = if ch.flag() { gap * 2 } else { gap };
            let len = *ch.of(&[3usize, 5, 258, 260]);
            let start = 1 + ch.pick(2);
            let b: Vec<u8> = (0..len).map(|i| 128 + ((i * 11 + i / 37) % 100) as u8).collect();
            let mut all = vec![7u8; start];
            all.extend(&b);
            let mut i = 0u32;
            while all.len() < start + gap {
                all.push((i.wrapping_mul(2654435761) >> 9) as u8 & 0x7f);
                i += 1;
            }
            all.truncate(start + gap);
            all.extend(&b);
            all.extend([1, 2]);
            let pre = *ch.of(&[0usize, 100, start + gap, start + gap - 1, start + gap + 1]);
            let obsc: Vec<(usize, u16)> = match ch.pick(4) {
                0 => vec![],
                1 => vec![(start, len as u16)],
                2 => vec![(start - 1, 2)],
                _ => vec![(start + 1, 1), (start + 2, 5)],
            };
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
            let mut n = 0;
            let from = start + gap - 1;
            let to = (from + 8).min(all.len());
            for pos in from..to {
                n += check_candidates(&all, pre, pos, &obsc, u16::MAX, &refs).map_err(|e| format!("distance {}: {}", gap, e))?;
            }
            ch.inner(8, 8);
            ok(if n > 0 { "found" } else { "out-of-window" }, mix(mix(fnv(&all), pre as u64), fnv(format!("{:?}", obsc).as_bytes())))
        }),
        stage("long", 0, "70000 and (fewer cases) 140000 bytes (thorough up to 300000) with matches at varied distances or few different bytes, earlier data of 0 to 66000 bytes, up to 3000 obscured runs at the start or right before the position, positions all over the data and around 4096, 32768 and 65536", move |ch| {
            let n = *ch.of(if th { &[70000usize, 140000, 300000][..] } else { &[70000, 140000] });
            let kind = ch.pick(2);
            let all = if kind == 0 { long_data(n) } else { (0..n as u32).map(|i| (i.wrapping_mul(2654435761) >> 29) as u8).collect() };
            let few = n > 70000 && !th;
            let pre = *ch.of(if few { &[0usize][..] } else { &[0, 1, 32768, 66000] });
            let k = *ch.of(if few { &[0usize, 3000][..] } else if th { &[0usize, 1, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 2048, 3000][..] } else { &[0, 64, 65, 256, 1000, 1025, 3000] });
            let late = k > 0 && ch.flag();
            let step = if kind == 0 { 997 } else { 9973 };
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
            let mut at: Vec<usize> = (0..n).step_by(step).collect();
            for b in [0usize, 4096, 32768, 65536, n] {
                at.extend([2, 1].iter().filter_map(|d| b.checked_sub(*d)).chain([b, b + 1]).filter(|&p| p < n));
            }
            let (mut found, runs) = (0, at.len() as u64);
            for pos in at {
                // runs of 10 with 10 between, the first or the last that fit
                let fit = pos / 20;
                let m = k.min(fit);
                let first = if late { fit - m } else { 0 };
                let obsc: Vec<(usize, u16)> = (first..first + m).map(|i| (i * 20 + 3, 10)).filter(|o| o.0 < pos).collect();
                found += check_candidates(&all, pre, pos, &obsc, u16::MAX, &refs).map_err(|e| format!("long data {} of {}, {} earlier, {} obscured runs from {}, position {}: {}", kind, n, pre, m, first, pos, &e[e.find("limit").unwrap_or(0)..]))?;
            }
            ch.inner(runs, runs);
            ok("ok", mix(mix(mix(n as u64, kind as u64), mix(pre as u64, k as u64)), mix(late as u64, found as u64)))
        }),
        stage("huge", 0, "2^17, 2^18, 2^20 and 2^24 (thorough every power from 2^16) + 700 bytes, all or all but 1500 of them earlier data: candidates at the last 1400 positions (every 7th; from 2^21 on every 70th) and around the power of two", move |ch| {
            let k = *ch.of(if th { &[16usize, 17, 18, 19, 20, 21, 22, 23, 24, 25][..] } else { &[17, 18, 20, 24] });
            let n = (1usize << k) + 700;
            let all = long_data(n);
            let pre = if ch.flag() { n - 1500 } else { 0 };
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
            let mut at: Vec<usize> = (n - 1400..n).step_by(if k > 20 { 70 } else { 7 }).collect();
            at.extend((1 << k) - 3..(1 << k) + 4);
            let (mut found, runs) = (0, at.len() as u64);
            for pos in at {
                found += check_candidates(&all, pre, pos, &[], u16::MAX, &refs).map_err(|e| format!("{} bytes, {} of them earlier, position {}: {}", n, pre, pos, &e[e.find("limit").unwrap_or(0)..]))?;
            }
            ch.inner(runs, runs);
            ok("ok", mix(mix(n as u64, pre as u64), found as u64))
        }),
        stage("repetitive", 0, "33000 to 70000 (thorough 200000) bytes of period 1, 2, 3 or 7, or two such parts, with earlier data of 0, 100, 32768 bytes or all but 300: all candidates at positions at the start, around 1024, 4096, 32768 and 65536, in the middle and at the end", move |ch| {
            let n = *ch.of(if th { &[33000usize, 66000, 70000, 140000, 200000][..] } else { &[33000, 70000] });
            let p = *ch.of(&[1usize, 2, 3, 7]);
            let q = *ch.of(&[p, 1, 2]);
            let all: Vec<u8> = (0..n).map(|i| if i < n / 2 { b"abacabb"[i % p] } else { b"abacabb"[i % q] }).collect();
            let pre = *ch.of(&[0usize, 100, 32768, n - 300]);
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
            let mut at = vec![1, 2, 3, 8, 258, 1025, 1030, 1500, 2100, n / 2, n / 2 + 1030, n - 300, n - 259, n - 4, n - 3, n - 2];
            for b in [4096usize, 32768, 65536] {
                at.extend([b - 1, b, b + 1, b + 2].iter().filter(|&&x| x < n - 2));
            }
            let k = at.len() as u64;
            let mut found = 0;
            for pos in at {
                found += check_candidates(&all, pre, pos, &[], u16::MAX, &refs).map_err(|e| format!("{} bytes of period {} then {}, {} earlier: {}", n, p, q, pre, e[e.find("position").unwrap_or(0)..].chars().take(300).collect::<String>()))?;
            }
            ch.inner(k, k);
            ok("ok", mix(mix(n as u64, found as u64), mix(pre as u64, (p * 10 + q) as u64)))
        }),
        stage("chains", 0, "long chains of equal keys (every chain length up to 40 and 255-257, 300) and chain limits around them", move |ch| {
            let n = {
                let k = ch.pick(45);
                [254usize, 255, 256, 257, 300].get(k.wrapping_sub(40)).cloned().unwrap_or(k)
            };
            let limit = *ch.of(&[1u16, 2, 3, 4, 31, 32, 33, 255, 256, 257, 4096, u16::MAX]);
            let mut all = vec![0u8];
            for i in 0..n {
                all.extend([b'k', b'e', b'y', i as u8, (i >> 8) as u8 ^ 0x80]);
            }
            all.extend(b"key!!");
            let pos = all.len() - 5;
            let pre = *ch.of(&[0usize, pos, pos / 2]);
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], limit);
            let mut tot = 0;
            for p in 0..all.len() {
                tot += check_candidates(&all, pre, p, &[], limit, &refs)?;
            }
            let got = refs.at(pos, &[]).map(|i| i.count()).unwrap_or(0);
            if got != n.min(limit as usize) {
                return Err(format!("{} equal keys, limit {}: {} candidates", n, limit, got));
            }
            ch.inner(all.len() as u64, all.len() as u64);
            ok("ok", mix(mix(n as u64, limit as u64), tot as u64))
        }),
    ]
}

// ------------------------------------------------------------------------------------------ C13, C14

fn spells(all: &[u8], pos: usize, g: &[C]) -> Result<usize, String> {
    if g.is_empty() {
        return Err("no prediction".into());
    }
    let mut out = all[..pos].to_vec();
    expand_codes(&mut out, g).ok_or("prediction reaches before the start of the data")?;
    if out.len() > all.len() {
        return Err(format!("prediction {:?} runs {} bytes past the end", g, out.len() - all.len()));
    }
    if out[pos..] != all[pos..out.len()] {
        return Err(format!("prediction {:?} does not spell the data {}", g, hex(&all[pos..out.len()])));
    }
    Ok(out.len())
}

fn state_stage(name: &'static str, n: usize, alphabet: &'static [u8], techs: Vec<Tech>, model: bool) -> Stage {
    stage(name, 0, "every string up to the bound x every split x every technique x every state (every code sequence leading to every position): the prediction there", move |ch| {
        let all = word(ch, n, alphabet);
        ch.note(|| format!("{} with every split and every state", hex(&all)));
        let mut runs = 0;
        let mut h = fnv(&all);
        for pre in 0..=all.len() {
            let mut done: Vec<(u16, AllRefs)> = vec![];
            for t in &techs {
                if !done.iter().any(|x| x.0 == t.limit) {
                    done.push((t.limit, AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit)));
                }
                let refs = &done.iter().find(|x| x.0 == t.limit).unwrap().1;
                let tech = Technique::new(t.cfg, refs);
                let no_insert = t.p.insert.is_none();
                let mut f = |codes: &[C], pos: usize| -> Result<(), String> {
                    let er = |e: String| format!("{} at {}: {}", case(&all, pre, t, codes), pos, e);
                    let mut sc = tech.scanner();
                    for c in codes {
                        sc.feedback(sut::to_code(c));
                    }
                    if sc.pos != pos || sc.more_data() != (pos < all.len()) {
                        return Err(er(format!("scanner at {} more_data {}", sc.pos, sc.more_data())));
                    }
                    if pos == all.len() {
                        return Ok(());
                    }
                    runs += 1;
                    let g = sut::to_c(&guarded(|| sc.codes()).map_err(er)?);
                    if model {
                        let mut m = Guess::new(&all, pre, t.p);
                        for c in codes {
                            m.feed(c);
                        }
                        let w = m.predict();
                        if w != g {
                            return Err(er(format!("predicts {:?}, the level's rules give {:?}", g, w)));
                        }
                    } else {
                        spells(&all, pos, &g).map_err(er)?;
                        let again = sut::to_c(&sc.codes());
                        if again != g {
                            return Err(er(format!("predicts {:?}, then {:?}", g, again)));
                        }
                    }
                    h = mix(h, g.len() as u64 + pos as u64);
                    Ok(())
                };
                if no_insert {
                    // history does not matter: one path of literals reaches every state
                    let mut codes = vec![];
                    for pos in pre..=all.len() {
                        f(&codes, pos)?;
                        if pos < all.len() {
                            codes.push(C::L(all[pos]));
                        }
                    }
                    // and arbitrary paths on the shorter ones, to be sure of that
                    if all.len() <= 7 {
                        prefixes(&all, pre, &mut vec![], &mut f)?;
                    }
                } else {
                    prefixes(&all, pre, &mut vec![], &mut f)?;
                }
            }
        }
        ch.inner(runs, runs);
        ok("ok", h)
    })
}

/// Walk a text with codes chosen by the explorer (few deviations from the guesser), checking at every state.
fn walk_stage(name: &'static str, bound: u32, techs: Vec<Tech>, model: bool) -> Stage {
    stage(name, bound, "structured texts x splits x techniques: walks that follow the guesser with a bounded number of deviations, the prediction checked at every point", move |ch| {
        let all = text(ch.pick(8));
        let t = ch.of(&techs);
        let pre = [0, 1, all.len() / 3, all.len() / 2][ch.pick(4)];
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        walk(ch, &tech, t, &all, pre, model, 40)
    })
}

fn walk(ch: &Ch, tech: &Technique, t: &Tech, all: &[u8], pre: usize, model: bool, max_dev_points: usize) -> Result<Out, String> {
    let mut sc = tech.scanner();
    let mut m = Guess::new(all, pre, t.p);
    let mut pos = pre;
    let mut trail: Vec<C> = vec![];
    let mut h = fnv(all);
    let mut points = 0;
    while pos < all.len() {
        let g = sut::to_c(&sc.codes());
        let er = |e: String, trail: &[C]| format!("technique {} earlier {} data {} after {:?} at {}: {}", t.name, hex(&all[..pre]), hex(&all[pre..]), &trail[trail.len().saturating_sub(8)..], pos, e);
        spells(all, pos, &g).map_err(|e| er(e, &trail))?;
        if sut::to_c(&sc.codes()) != g {
            return Err(er("asking twice gives two answers".into(), &trail));
        }
        if model {
            let w = m.predict();
            if w != g {
                return Err(er(format!("predicts {:?}, the level's rules give {:?}", g, w), &trail));
            }
        }
        for c in g {
            let mut menu = vec![c.clone()];
            if points < max_dev_points {
                if c != C::L(all[pos]) {
                    menu.push(C::L(all[pos]));
                }
                for d in 1..=pos.min(32768) {
                    let k = run_at(all, pos - d, pos);
                    if k >= 3 {
                        for l in [k, 3, k - 1] {
                            if l >= 3 && !menu.contains(&r(d as u16, l)) {
                                menu.push(r(d as u16, l));
                            }
                        }
                        if menu.len() > 7 {
                            break;
                        }
                    }
                }
                points += 1;
            }
            let i = ch.dev(menu.len());
            let x = menu[i].clone();
            sc.feedback(sut::to_code(&x));
            m.feed(&x);
            pos += match x {
                C::L(_) => 1,
                C::R { len, .. } => len as usize,
            };
            h = mix(h, pos as u64);
            trail.push(x);
            if i != 0 || pos >= all.len() {
                break;
            }
        }
        ch.inner(1, 1);
    }
    ch.note(|| case(all, pre, t, &trail));
    ok("ok", h)
}

/// Data at which one particular limit of a level decides.
fn threshold(ch: &Ch) -> (Vec<u8>, usize, String) {
    // a text X without repeated keys
    let x: Vec<u8> = (0..300u32).map(|i| (i.wrapping_mul(2654435761) >> 11) as u8 | 0x80).collect();
    let lens = [3usize, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 129, 256, 257, 258, 259, 290];
    let mut v = vec![1u8, 2, 3];
    match ch.pick(7) {
        0 => {
            // far: longer match; near: match of length n
            let far = *ch.of(&lens);
            let near = *ch.of(&lens);
            v.extend(&x[..far]);
            v.extend([5, 6]);
            v.extend(&x[..near]);
            v.extend([7, 8]);
            let at = v.len();
            v.extend(&x[..291]);
            (v, at, format!("far match {} near match {}", far, near))
        }
        1 => {
            // three matches
            let ls = [4usize, 8, 9, 16, 32, 128, 258];
            let (a, b, c) = (*ch.of(&ls), *ch.of(&ls), *ch.of(&ls));
            for (i, n) in [a, b, c].into_iter().enumerate() {
                v.extend(&x[..n]);
                v.extend([5 + i as u8, 9]);
            }
            let at = v.len();
            v.extend(&x[..280]);
            (v, at, format!("matches {} {} {}", a, b, c))
        }
        2 => {
            // k decoys of length 3 (or `dl`) between the long match and the target
            let ks = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097];
            let k = *ch.of(&ks);
            v.extend(&x[..12]);
            v.extend([5, 6]);
            for i in 0..k {
                v.extend(&x[..3]);
                v.extend([(i % 100) as u8, (i / 100) as u8]);
            }
            let at = v.len();
            v.extend(&x[..20]);
            (v, at, format!("{} decoys", k))
        }
        3 => {
            // decoys that only share the hash key (first byte differs in a dropped bit)
            let k = *ch.of(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33]);
            let y = [0x61u8, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95];
            v.extend(&y);
            for i in 0..k {
                v.extend([0x41, 0x90, 0x91, i as u8, 0xf0]);
            }
            let at = v.len();
            v.extend(&y);
            v.extend([1, 2]);
            (v, at, format!("{} hash collisions", k))
        }
        5 => {
            // a run of one byte (or of a pair) that begins at the target or up to three bytes later, with short matches before it
            let lead = ch.pick(4);
            let period = 1 + ch.pick(2);
            let run = *ch.of(&[2usize, 3, 4, 5, 7, 255, 256, 257, 258, 259, 260, 261, 300]);
            let m = *ch.of(&[0usize, 3, 4, 5]);
            let mut t = x[..lead].to_vec();
            t.extend((0..run).map(|i| x[20 + i % period]));
            t.extend([201, 202]);
            v.extend(&t[..m.min(t.len())]);
            v.extend([5, 6, 7]);
            v.extend(&t[lead.min(1)..(lead.min(1) + m).min(t.len())]);
            v.extend([8, 9]);
            let at = v.len();
            v.extend(&t);
            (v, at, format!("run of {} with period {} {} later, earlier matches of {}", run, period, lead, m))
        }
        4 => {
            // a match of length n at distance d around 4096
            let n = *ch.of(&[3usize, 4]);
            let d = *ch.of(&[4094usize, 4095, 4096, 4097, 4098, 32766, 32767, 32768, 32769]);
            v.extend(&x[..n]);
            let mut i = 0u32;
            while v.len() < 3 + d {
                v.push(((i.wrapping_mul(2654435761) >> 13) & 0x7f) as u8);
                i += 1;
            }
            v.truncate(3 + d);
            let at = v.len();
            v.extend(&x[..n]);
            v.extend([200, 201, 202]);
            (v, at, format!("match {} at distance {}", n, d))
        }
        _ => {
            // lazy bait: at the target a 3-match, one later an m-match, two later an n-match
            let m = *ch.of(&[0usize, 3, 4, 5, 6, 257, 258]);
            let n = *ch.of(&[0usize, 3, 4, 5, 6, 257, 258]);
            let f = *ch.of(&[3usize, 4]);
            v.extend(&x[..f]);
            v.extend([5, 6]);
            v.extend(&x[1..1 + m]);
            v.extend([7, 9]);
            v.extend(&x[2..2 + n]);
            v.extend([8, 10]);
            let at = v.len();
            v.extend(&x[..280]);
            (v, at, format!("match {} then {} then {}", f, m, n))
        }
    }
}

fn threshold_stage(model: bool) -> Stage {
    stage("thresholds", 0, "families in which exactly one limit decides (nice length, chain length, hash collisions in the chain, 4096 and 32768 distance, lookahead), each limit minus one, exact, plus one, at every level", move |ch| {
        let techs = all_techs();
        let (all, at, what) = threshold(ch);
        let t = ch.of(&techs);
        let pre = match ch.pick(3) {
            0 => 0,
            1 => at,
            _ => at.saturating_sub(7),
        };
        let limit = if ch.flag() { t.limit } else { t.p.insert.unwrap_or(u16::MAX) };
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], limit);
        let tech = Technique::new(t.cfg, &refs);
        let p = t.p.limit(limit as usize);
        let mut sc = tech.scanner();
        let mut m = Guess::new(&all, pre, p);
        for i in pre..at {
            let c = C::L(all[i]);
            sc.feedback(Code::Literal(all[i]));
            m.feed(&c);
        }
        let mut h = fnv(what.as_bytes());
        let mut pos = at;
        let mut steps = 0;
        while pos < all.len() && steps < 4 {
            let g = sut::to_c(&sc.codes());
            let er = |e: String| format!("technique {} {} ({} earlier bytes) at +{}: {}", t.name, what, pre, pos - at, e);
            spells(&all, pos, &g).map_err(er)?;
            if model {
                let w = m.predict();
                if w != g {
                    return Err(er(format!("predicts {:?}, the level's rules give {:?}", g, w)));
                }
            }
            for c in g {
                h = mix(h, match c { C::L(b) => b as u64, C::R { len, dist, .. } => len as u64 * 65536 + dist as u64 });
                sc.feedback(sut::to_code(&c));
                m.feed(&c);
                pos += match c {
                    C::L(_) => 1,
                    C::R { len, .. } => len as usize,
                };
            }
            steps += 1;
        }
        ch.inner(steps, steps);
        ch.note(|| format!("technique {} {}", t.name, what));
        ok("ok", h)
    })
}

/// References of length around the insert limit, then a target whose match lies inside them.
fn insert_stage(model: bool) -> Stage {
    stage("insert-limits", 0, "levels 1-9: references of length limit-2 to limit+2 (and 258) emitted over a region, then a target whose candidate starts at each offset before, inside and after that region", move |ch| {
        let techs = all_techs();
        let t = ch.of(&techs);
        let len = *ch.of(&[3usize, 4, 5, 6, 7, 8, 9, 20, 258]);
        let off = ch.pick(10).min(len + 1); // where the later candidate starts, relative to the reference
        let len2 = ch.pick(2) * 5;
        let x: Vec<u8> = (0..290u32).map(|i| (i.wrapping_mul(2654435761) >> 11) as u8 | 0x80).collect();
        let mut all = vec![1u8, 2, 3];
        let a = all.len();
        all.extend(&x[..len + 6]);
        all.extend([4, 5]);
        let rpos = all.len();
        all.extend(&x[..len + 6]);
        all.extend([6, 7]);
        if len2 > 0 {
            all.extend(&x[..len2]);
            all.push(9);
        }
        let target = all.len();
        all.extend(&x[off..(off + 12).min(290)]);
        all.extend([30, 31]);
        let pre = *ch.of(&[0usize, rpos, rpos - 2]);
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
        let tech = Technique::new(t.cfg, &refs);
        let mut sc = tech.scanner();
        let mut m = Guess::new(&all, pre, t.p);
        let feed = |sc: &mut dyn FnMut(Code), m: &mut Guess, c: C| {
            sc(sut::to_code(&c));
            m.feed(&c);
        };
        let mut push = |c: Code| sc.feedback(c);
        for i in pre..rpos {
            feed(&mut push, &mut m, C::L(all[i]));
        }
        feed(&mut push, &mut m, r((rpos - a) as u16, len as u16));
        for i in rpos + len..target {
            feed(&mut push, &mut m, C::L(all[i]));
        }
        let g = sut::to_c(&sc.codes());
        let what = format!("technique {} after a reference of length {}, target at its offset {} ({} earlier bytes)", t.name, len, off, pre);
        spells(&all, target, &g).map_err(|e| format!("{}: {}", what, e))?;
        if model {
            let w = m.predict();
            if g != w {
                return Err(format!("{}: predicts {:?}, the level's rules give {:?}", what, g, w));
            }
        }
        ch.note(|| format!("{}: {:?}", what, g));
        ok("ok", mix(fnv(what.as_bytes()), fnv(format!("{:?}", g).as_bytes())))
    })
}

/// Very many references longer than the insert limit, then targets that only occur inside them.
/// Very long repetitive data; the codes in between are literals, references of 258, or short references.
fn repetitive_walk(th: bool, model: bool) -> Stage {
    stage("repetitive", 0, "33000 and 70000 (thorough up to 200000) bytes of period 1, 2 or 7, or two such parts, with earlier data of 0, 32768 bytes or all but 600, coded as literals, references of 258 bytes, of 258 and literals in turn, or of 5: predictions at the start, around 1024, 4096, 32768, 65536, in the middle and at the end", move |ch| {
        let n = *ch.of(if th { &[33000usize, 66000, 70000, 140000, 200000][..] } else { &[33000, 70000] });
        let p = *ch.of(&[1usize, 2, 7]);
        let q = *ch.of(&[p, 1]);
        let techs: Vec<Tech> = all_techs().into_iter().chain(small_techs().into_iter().filter(|t| t.pinned && (th || t.p.insert.is_some()))).collect();
        let t = ch.of(&techs);
        let pre = *ch.of(&[0usize, 32768, n - 600]);
        let way = ch.pick(4);
        let all: Vec<u8> = (0..n).map(|i| if i < n / 2 { b"abacabb"[i % p] } else { b"abacabb"[i % q] }).collect();
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        let mut sc = tech.scanner();
        let mut m = Guess::new(&all, pre, t.p);
        let mut at = vec![1, 3, 258, 1030, 2100, n / 2, n / 2 + 1030, n - 590, n - 300, n - 259, n - 4, n - 3];
        for b in [4096usize, 32768, 65536] {
            at.extend([b, b + 1]);
        }
        at.sort();
        let (mut next, mut runs, mut h, mut k) = (0, 0, 0, 0);
        while m.pos < n {
            let pos = m.pos;
            while next < at.len() && at[next] < pos {
                // a code jumped over it: ask here instead
                at[next] = pos;
            }
            if at.get(next) == Some(&pos) {
                while at.get(next) == Some(&pos) {
                    next += 1;
                }
                runs += 1;
                let g = sut::to_c(&guarded(|| sc.codes())?);
                let what = || format!("technique {}, {} bytes of period {} then {}, {} earlier, way {}, at {}", t.name, n, p, q, pre, way, pos);
                spells(&all, pos, &g).map_err(|e| format!("{}: {}", what(), e))?;
                if model {
                    let w = m.predict();
                    if g != w {
                        return Err(format!("{}: predicts {:?}, the level's rules give {:?}", what(), g, w));
                    }
                }
                h = mix(h, fnv(format!("{:?}", g).as_bytes()));
            }
            let period = if pos < n / 2 { p } else { q };
            let want = match way {
                0 => 1,
                1 => 258,
                2 => [258, 1][k % 2],
                _ => 5,
            };
            k += 1;
            let end = if pos < n / 2 { n / 2 } else { n };
            let c = if want > 1 && pos >= period && (pos < n / 2 || pos >= n / 2 + period) && pos + want <= end { r(period as u16, want as u16) } else { C::L(all[pos]) };
            sc.feedback(sut::to_code(&c));
            m.feed(&c);
        }
        ch.inner(runs, runs);
        ch.note(|| format!("technique {} {} bytes of period {} then {}, {} earlier, way {}", t.name, n, p, q, pre, way));
        ok("ok", mix(h, n as u64))
    })
}

fn many_refs_stage(th: bool, model: bool) -> Stage {
    stage("many-references", 0, "every level and technique: up to 3000 (thorough 8000) references emitted one after another (with literals between), then targets that occur at every offset inside and around them", move |ch| {
        let techs: Vec<Tech> = all_techs().into_iter().chain(small_techs().into_iter().filter(|t| t.pinned && t.p.insert.is_some())).collect();
        let t = ch.of(&techs);
        let k = *ch.of(if th { &[10usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8000][..] } else { &[64, 65, 256, 999, 1000, 1001, 1024, 1025, 3000, 4097] });
        let len = *ch.of(&[9usize, 20, 5]);
        let x: Vec<u8> = (0..60u32).map(|i| (i.wrapping_mul(2654435761) >> 11) as u8 | 0x80).collect();
        let mut all = vec![1u8, 2, 3];
        all.extend(&x[..len]);
        let first = all.len();
        for i in 0..k {
            all.extend([(i % 120) as u8, (i / 120) as u8]);
            all.extend(&x[..len]);
        }
        let end = all.len();
        let mut targets = vec![];
        // the latest first: no target begins like an earlier one
        for off in (0..len.min(12)).rev() {
            all.extend([121, off as u8, 122]);
            targets.push(all.len());
            all.extend(&x[off..(off + 7).min(len)]);
        }
        all.extend([123, 124]);
        let pre = *ch.of(&[0usize, first]);
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
        let tech = Technique::new(t.cfg, &refs);
        let mut sc = tech.scanner();
        let mut m = Guess::new(&all, pre, t.p);
        let mut h = 0;
        let mut pos = pre;
        while pos < all.len() {
            if targets.contains(&pos) {
                let g = sut::to_c(&sc.codes());
                let what = format!("technique {} after {} references of length {}, target {} ({} earlier bytes)", t.name, k, len, pos - end, pre);
                spells(&all, pos, &g).map_err(|e| format!("{}: {}", what, e))?;
                if model {
                    let w = m.predict();
                    if g != w {
                        return Err(format!("{}: predicts {:?}, the level's rules give {:?}", what, g, w));
                    }
                }
                h = mix(h, fnv(format!("{:?}", g).as_bytes()));
            }
            let c = if pos >= first && pos < end && (pos - first) % (len + 2) == 2 { r(len as u16 + 2, len as u16) } else { C::L(all[pos]) };
            sc.feedback(sut::to_code(&c));
            m.feed(&c);
            pos += if let C::L(_) = c { 1 } else { len };
        }
        ch.inner(targets.len() as u64, targets.len() as u64);
        ch.note(|| format!("technique {} {} references of length {}", t.name, k, len));
        ok("ok", mix(h, k as u64))
    })
}

fn far_walk(model: bool) -> Stage {
    stage("far", 1, "a block repeated at distances around 4096 and 32768, lengths around 3 and 258, walked with at most one deviation", move |ch| {
        let (all, pre) = far_case(ch);
        let techs = all_techs();
        let t = ch.of(&techs);
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        walk(ch, &tech, t, &all, pre, model, 12).map_err(|e| e.chars().take(600).collect())
    })
}

/// Long data walked along the guesses (with overrides); C13: they spell the data, asked twice; C14: the model agrees.
fn long_walk(th: bool, model: bool) -> Stage {
    stage("long", 0, "70000 and (fewer cases) 140000 bytes (thorough also 33000 and 200000), and the end of 2^18, 2^20 and 2^24 + 700 bytes (thorough more), with matches at varied distances up to 32769, earlier data of 0 to 66000 bytes, walked along the guesses, literals or overrides", move |ch| {
        let n = *ch.of(if th { &[70000usize, 33000, 140000, 200000, (1 << 17) + 700, (1 << 18) + 700, (1 << 19) + 700, (1 << 20) + 700, (1 << 22) + 700, (1 << 24) + 700][..] } else { &[70000, 140000, (1 << 18) + 700, (1 << 20) + 700, (1 << 24) + 700] });
        let huge = n > 1 << 17 && n % 100 != 0;
        let few = n > 70000 && (!th || huge);
        let techs: Vec<Tech> = if model { all_techs().into_iter().chain(small_techs().into_iter().filter(|t| t.pinned)).collect() } else { all_techs().into_iter().step_by(3).chain(small_techs()).collect() };
        let t = ch.of(&techs[..if few { 3 } else { techs.len() }]);
        let pre = if huge { n - 1500 } else { (*ch.of(if th { &[0usize, 100, 32767, 32768, 32769, 66000][..] } else if few { &[0] } else { &[0, 32768, 66000][..] })).min(n - 1) };
        let way = if few { 1 + ch.pick(2) } else { ch.pick(4) };
        let all = long_data(n);
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], t.limit);
        let tech = Technique::new(t.cfg, &refs);
        let cs = sut::to_c(&guarded(|| long_codes(&tech, &all, pre, way))?);
        let mut sc = tech.scanner();
        let mut m = Guess::new(&all, pre, t.p);
        let (mut runs, mut h) = (0, 0);
        let e = |x: String, p: usize| format!("technique {} with {} earlier bytes of {}, way {}, at {}: {}", t.name, pre, n, way, p, x);
        for (i, c) in cs.iter().enumerate() {
            // every 4th code (model: 211th), and all around the boundaries
            let near = huge || [4096usize, 32768, 65536].iter().any(|b| m.pos + 3 > *b && m.pos < *b + 3);
            if near || i % if model { 211 } else { 4 } == 0 {
                runs += 1;
                let g = sut::to_c(&guarded(|| sc.codes()).map_err(|x| e(x, m.pos))?);
                if model {
                    let w = m.predict();
                    if w != g {
                        return Err(e(format!("predicts {:?}, the level's rules give {:?}", g, w), m.pos));
                    }
                } else {
                    let mut at = m.pos;
                    if g.is_empty() {
                        return Err(e("no prediction".into(), at));
                    }
                    for x in &g {
                        let ok = match *x {
                            C::L(b) => all.get(at) == Some(&b),
                            C::R { len, dist, .. } => dist >= 1 && dist as usize <= at && dist <= 32768 && at + len as usize <= n && run_at(&all, at - dist as usize, at) >= len,
                        };
                        if !ok {
                            return Err(e(format!("prediction {:?} does not spell the data", g), at));
                        }
                        at += if let C::R { len, .. } = x { *len as usize } else { 1 };
                    }
                    if sut::to_c(&sc.codes()) != g {
                        return Err(e("asked twice, two answers".into(), at));
                    }
                }
                h = mix(h, fnv(format!("{:?}", g).as_bytes()));
            }
            sc.feedback(sut::to_code(c));
            m.feed(c);
        }
        if sc.pos != n || sc.more_data() {
            return Err(e(format!("scanner at {} at the end", sc.pos), n));
        }
        ch.inner(runs, runs);
        ok("ok", h)
    })
}

fn c13(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    vec![
        state_stage("binary", if th { 12 } else { 10 }, b"ab", small_techs(), false),
        state_stage("ternary", if th { 9 } else { 7 }, b"abc", small_techs(), false),
        state_stage("colliding", if th { 9 } else { 7 }, &COLLIDING, small_techs(), false),
        state_stage("colliding2", if th { 12 } else { 9 }, &COLLIDING2, small_techs(), false),
        walk_stage("walks", if th { 3 } else { 2 }, small_techs(), false),
        walk_stage("walks-levels", if th { 2 } else { 1 }, all_techs(), false),
        threshold_stage(false),
        insert_stage(false),
        many_refs_stage(th, false),
        repetitive_walk(th, false),
        far_walk(false),
        long_walk(th, false),
        stage("to-the-end", 0, "following the guesser to the end spells the data: binary strings up to 13 (thorough 16), every split", move |ch| {
            let all = word(ch, if th { 16 } else { 13 }, b"ab");
            let mut runs = 0;
            for pre in 0..=all.len() {
                let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
                for t in small_techs().iter().filter(|t| t.limit == u16::MAX) {
                    runs += 1;
                    let tech = Technique::new(t.cfg, &refs);
                    let mut sc = tech.scanner();
                    let mut out = all[..pre].to_vec();
                    while sc.more_data() {
                        let g = sc.codes();
                        expand_codes(&mut out, &sut::to_c(&g)).ok_or("reference too far")?;
                        for c in g {
                            sc.feedback(c);
                        }
                        if out.len() > all.len() + 600 {
                            break;
                        }
                    }
                    if out != all {
                        return Err(format!("technique {} earlier {} data {}: the guesser spells {}", t.name, hex(&all[..pre]), hex(&all[pre..]), hex(&out[pre..])));
                    }
                }
            }
            ch.inner(runs, runs);
            ok("spelled", fnv(&all))
        }),
    ]
}

fn c14(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let pinned: Vec<Tech> = small_techs().into_iter().filter(|t| t.pinned).collect();
    let p2 = pinned.clone();
    vec![
        state_stage("binary", if th { 12 } else { 10 }, b"ab", pinned.clone(), true),
        state_stage("ternary", if th { 9 } else { 7 }, b"abc", pinned.clone(), true),
        state_stage("colliding", if th { 9 } else { 7 }, &COLLIDING, pinned.clone(), true),
        state_stage("colliding2", if th { 12 } else { 9 }, &COLLIDING2, pinned.clone(), true),
        state_stage("levels", if th { 10 } else { 8 }, b"ab", all_techs(), true),
        walk_stage("walks", if th { 3 } else { 2 }, p2, true),
        walk_stage("walks-levels", if th { 2 } else { 1 }, all_techs(), true),
        threshold_stage(true),
        insert_stage(true),
        many_refs_stage(th, true),
        repetitive_walk(th, true),
        far_walk(true),
        long_walk(th, true),
        stage("try-gzip", 0, "tracer::try_gzip on the model's own predictions and on literals only, for every level: structured texts, threshold families, every binary string up to 10", move |ch| {
            let level = 1 + ch.pick(9) as u8;
            let (all, pre) = match ch.pick(3) {
                0 => {
                    let w = word(ch, 10, b"ab");
                    let p = ch.pick(w.len() + 1);
                    (w, p)
                }
                1 => {
                    let a = text(ch.pick(8));
                    let p = [0, a.len() / 3, a.len() / 2][ch.pick(3)];
                    (a, p)
                }
                _ => {
                    let (mut a, at, _) = threshold(ch);
                    a.truncate(at + 40);
                    (a, at)
                }
            };
            let p = Params::gzip(level);
            // the model's own codes
            let mut m = Guess::new(&all, pre, p);
            let mut codes = vec![];
            while m.more() {
                for c in m.predict() {
                    m.feed(&c);
                    codes.push(c);
                }
            }
            let tr = guarded(|| tracer::try_gzip(level, &all[..pre], &all[pre..], &sut::to_codes(&codes)))?;
            if tr.len() != codes.len() || tr.iter().any(|t| !sut::correct(t)) {
                return Err(format!("level {} earlier {} data {}: the codes the level's rules give {:?} trace to {:?}", level, hex(&all[..pre]), hex(&all[pre..]), &codes[..codes.len().min(12)], &tr[..tr.len().min(12)]));
            }
            // literals only
            let lits: Vec<C> = all[pre..].iter().map(|&b| C::L(b)).collect();
            let tr = guarded(|| tracer::try_gzip(level, &all[..pre], &all[pre..], &sut::to_codes(&lits)))?;
            let mut m = Guess::new(&all, pre, p);
            let mut want = vec![];
            for c in &lits {
                want.push(if m.predict()[0] == *c { Trace::Correct } else { Trace::ActuallyLiteral });
                m.feed(c);
            }
            if !sut::same_trace(&want, &tr) {
                return Err(format!("level {} earlier {} data {}: literals trace to {:?}, expected {:?}", level, hex(&all[..pre]), hex(&all[pre..]), &tr[..tr.len().min(12)], &want[..want.len().min(12)]));
            }
            ok("ok", mix(fnv(&all), mix(pre as u64, level as u64)))
        }),
    ]
}
