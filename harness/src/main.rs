mod deflate;
mod engine;
mod env;
mod gen;
mod props_cli;
mod props_e2e;
mod props_small;
mod props_stream;
mod props_trace;
mod props_incr;
mod props_write;
mod search;
#[cfg(rvmc_stepped)]
mod step;
mod sut;

use engine::*;
use std::fmt::Write as _;
use std::process::Command;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Stage {
    pub name: &'static str,
    pub bound: u32,
    pub rule: &'static str,
    pub body: Box<dyn Fn(&Ch) -> Result<Out, String> + Sync>,
}
pub fn stage(name: &'static str, bound: u32, rule: &'static str, body: impl Fn(&Ch) -> Result<Out, String> + Sync + 'static) -> Stage {
    Stage { name, bound, rule, body: Box::new(body) }
}

fn stages(id: &str, t: Tier) -> Vec<Stage> {
    let mut v = props_stream::stages(id, t);
    v.extend(props_trace::stages(id, t));
    v.extend(props_small::stages(id, t));
    v.extend(props_write::stages(id, t));
    v.extend(props_incr::stages(id, t));
    v.extend(props_cli::stages(id, t));
    v.extend(props_e2e::stages(id, t));
    v
}

fn level(id: &str) -> &'static str {
    match id {
        "C05" | "C06" => "fault_enumeration",
        _ => "model_checking",
    }
}

/// Which of the two builds of the code under test this binary holds: with the debug assertions and
/// overflow checks of `cargo build`, or without them, as `cargo build --release` makes it.
pub const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "plain" };

pub const ROOT: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn write_replay_of(build: &str, id: &str, t: Tier, stage: &str, v: &Violation) -> String {
    let dir = format!("{}/out", ROOT);
    let _ = std::fs::create_dir_all(&dir);
    let path = std::fs::canonicalize(&dir).map(|p| p.to_string_lossy().to_string()).unwrap_or(dir);
    let f = format!("{}/{}-{}.replay", path, id, stage);
    let c: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
    let _ = std::fs::write(
        &f,
        format!(
            "property={}\ntier={}\nbuild={}\nstage={}\nchoices={}\n# {}\n# reproducible in isolation: {}\n# {}\n# replay with: ./check.sh --replay {}\n",
            id,
            tier_name(t),
            build,
            stage,
            c.join(","),
            v.desc.replace('\n', "\n# "),
            v.reproducible,
            v.notes.join("\n# ").replace('\n', "\n# "),
            f
        ),
    );
    f
}

fn write_replay(id: &str, t: Tier, stage: &str, v: &Violation) -> String {
    write_replay_of(BUILD, id, t, stage, v)
}

fn known_list(id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", ROOT)).unwrap_or_default();
    s.lines()
        .filter(|l| l.starts_with(&format!("known: property={} ", id)))
        .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("sig=")).map(|x| x.to_string()))
        .collect()
}

fn write_evidence(id: &str, t: Tier, mine: &[(Report, &'static str)], violations: u64, wall: f64) {
    let mut all: Vec<(Report, &'static str)> = vec![];
    let mut wall = wall;
    if let Some((w, prev)) = std::env::var("RVMC_PREV").ok().and_then(|p| read_reports(&p)) {
        wall += w;
        all.extend(prev);
    }
    all.extend(mine.iter().cloned());
    let reps = &all[..];
    let mut o = String::new();
    let sum = |f: &dyn Fn(&Report) -> u64| reps.iter().map(|r| f(&r.0)).sum::<u64>();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let execs = sum(&|r| r.executions) + sum(&|r| r.inner_runs);
    let _ = write!(o, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n", js(id), js(tier_name(t)), seed, js(level(id)));
    if level(id) == "fault_enumeration" {
        let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", execs, sum(&|r| r.distinct));
        let rules: Vec<String> = reps.iter().filter(|r| r.0.build == reps[0].0.build).map(|r| format!("[{}] {}", r.0.stage, r.1)).collect();
        let _ = write!(o, "  \"rule\": {},\n", js(&format!("Every choice vector within the bound is run; distinct = distinct hashes of (input, observed result). {}", rules.join(" "))));
    } else {
        let _ = write!(
            o,
            "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n",
            sum(&|r| r.states) + sum(&|r| r.inner_steps),
            sum(&|r| r.transitions) + sum(&|r| r.inner_steps),
            execs,
            sum(&|r| r.distinct)
        );
    }
    let _ = write!(o, "  \"exhaustive\": {},\n  \"stages\": [\n", reps.iter().all(|r| r.0.exhaustive));
    for (i, (r, rule)) in reps.iter().enumerate() {
        let labels: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let _ = write!(
            o,
            "   {{\"stage\": {}, \"build\": {}, \"rule\": {}, \"deviation_bound\": {}, \"executions\": {}, \"inner_executions\": {}, \"inner_steps\": {}, \"choice_states\": {}, \"choice_transitions\": {}, \"max_depth\": {}, \"distinct_outcomes\": {}, \"distinct_is_lower_bound\": {}, \"exhaustive\": {}, \"outcomes\": {{{}}}, \"wall_s\": {:.2}}}{}\n",
            js(&r.stage), js(&r.build), js(rule), r.bound, r.executions, r.inner_runs, r.inner_steps, r.states, r.transitions, r.max_depth, r.distinct, r.distinct_capped, r.exhaustive, labels.join(", "), r.wall,
            if i + 1 < reps.len() { "," } else { "" }
        );
    }
    o.push_str("  ],\n  \"samples\": [\n");
    let mut ss: Vec<String> = reps.iter().flat_map(|r| r.0.samples.iter().map(|s| js(s))).collect();
    for r in reps {
        if let Some(v) = &r.0.violation {
            ss.push(js(&format!("VIOLATION {} choices={:?}: {} | {}", r.0.stage, v.choices, v.desc, v.notes.join("; "))));
        }
    }
    if ss.is_empty() {
        ss.push(js("none"));
    }
    let _ = write!(o, "   {}\n  ]\n }},\n", ss.join(",\n   "));
    let known: Vec<String> = reps.iter().flat_map(|r| r.0.known.iter().map(|(k, v)| js(&format!("{}: {}", k, v)))).collect();
    let _ = write!(o, " \"known_findings_seen\": [{}],\n", known.join(", "));
    let _ = write!(o, " \"assumptions\": [\"the reference models in /verif/harness/src (deflate.rs, search.rs and the models next to each property) state the intended behaviour\", \"behaviour outside the stated alphabets and bounds is not explored\"],\n");
    let _ = write!(o, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations);
    let _ = std::fs::create_dir_all(format!("{}/evidence", ROOT));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", ROOT, id), o) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(2);
    }
}

fn write_reports(path: &str, reps: &[(Report, &'static str)], wall: f64) {
    let e = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
    let mut o = format!("{}\n", wall);
    for (r, rule) in reps {
        let nums = [r.bound as u64, r.executions, r.states, r.transitions, r.inner_runs, r.inner_steps, r.max_depth as u64, r.distinct, r.distinct_capped as u64, r.exhaustive as u64];
        let _ = write!(o, "{}\t{}\t{}\t{}\t{}", e(&r.stage), e(&r.build), e(rule), r.wall, nums.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" "));
        let _ = write!(o, "\t{}", r.labels.len());
        for (k, v) in &r.labels {
            let _ = write!(o, "\t{}\t{}", e(k), v);
        }
        let _ = write!(o, "\t{}", r.known.len());
        for (k, v) in &r.known {
            let _ = write!(o, "\t{}\t{}", e(k), e(v));
        }
        for s in &r.samples {
            let _ = write!(o, "\t{}", e(s));
        }
        o.push('\n');
    }
    let _ = std::fs::write(path, o);
}

fn read_reports(path: &str) -> Option<(f64, Vec<(Report, &'static str)>)> {
    let un = |s: &str| {
        let mut o = String::new();
        let mut it = s.chars();
        while let Some(c) = it.next() {
            match c {
                '\\' => match it.next() {
                    Some('n') => o.push('\n'),
                    Some('t') => o.push('\t'),
                    Some(x) => o.push(x),
                    None => {}
                },
                c => o.push(c),
            }
        }
        o
    };
    let s = std::fs::read_to_string(path).ok()?;
    let mut lines = s.lines();
    let wall = lines.next()?.parse().ok()?;
    let mut v = vec![];
    for l in lines {
        let mut f = l.split('\t');
        let mut r = Report { stage: un(f.next()?), build: un(f.next()?), ..Default::default() };
        let rule: &'static str = Box::leak(un(f.next()?).into_boxed_str());
        r.wall = f.next()?.parse().ok()?;
        let n: Vec<u64> = f.next()?.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        (r.bound, r.executions, r.states, r.transitions, r.inner_runs, r.inner_steps, r.max_depth, r.distinct, r.distinct_capped, r.exhaustive) =
            (n[0] as u32, n[1], n[2], n[3], n[4], n[5], n[6] as usize, n[7], n[8] != 0, n[9] != 0);
        for _ in 0..f.next()?.parse::<usize>().ok()? {
            let k: &'static str = Box::leak(un(f.next()?).into_boxed_str());
            r.labels.insert(k, f.next()?.parse().ok()?);
        }
        for _ in 0..f.next()?.parse::<usize>().ok()? {
            let k = un(f.next()?);
            r.known.insert(k, un(f.next()?));
        }
        r.samples = f.map(un).collect();
        v.push((r, rule));
    }
    Some((wall, v))
}

fn child(id: &str, t: Tier, journal: Option<&str>) -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 25);
        libc::mallopt(libc::M_TOP_PAD, 1 << 20);
    }
    install_panic_hook();
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let j = journal.and_then(|p| Journal::open(p, threads));
    let sts = stages(id, t);
    if sts.is_empty() {
        eprintln!("no such property: {}", id);
        return 2;
    }
    let only = std::env::var("RVMC_STAGE").ok();
    let known = known_list(id);
    let mut reps: Vec<(Report, &'static str)> = vec![];
    let mut rc = 0;
    let total_cap = match t {
        Tier::Quick => Duration::from_secs(600),
        Tier::Thorough => Duration::from_secs(4 * 3600),
    };
    for (i, s) in sts.iter().enumerate() {
        if only.as_ref().map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        let idn = id.to_string();
        let sname = s.name.to_string();
        *HANG.lock().unwrap() = Some(Box::new(move |r: &Report| {
            let v = r.violation.clone().unwrap();
            let f = write_replay(&idn, t, &sname, &v);
            let mut rr = r.clone();
            rr.exhaustive = false;
            rr.build = BUILD.into();
            write_evidence(&idn, t, &[(rr, "stopped by the watchdog")], 1, t0.elapsed().as_secs_f64());
            println!("{} [{}] {}", idn, sname, v.desc);
            println!("VIOLATION property={} replay={}", idn, f);
        }));
        let mut last = None;
        for b in 0..=s.bound {
            let opts = Opts { threads, wall_cap: total_cap.saturating_sub(t0.elapsed()), hang: Duration::from_secs(if t == Tier::Quick { 60 } else { 180 }), journal: j.as_ref(), stage_idx: i as u32 };
            let r = explore(s.name, b, &opts, &*s.body);
            let stop = r.violation.is_some() || r.error.is_some() || !r.exhaustive;
            last = Some(r);
            if stop {
                break;
            }
        }
        let mut r = last.unwrap();
        r.build = BUILD.into();
        if let Some(e) = &r.error {
            eprintln!("ENGINE ERROR property={} stage={}: {}", id, s.name, e);
            return 2;
        }
        for (sig, d) in r.known.clone() {
            if known.contains(&sig) && std::env::var("RVMC_PREV").is_ok() {
                // said by the other build already
            } else if known.contains(&sig) {
                println!("KNOWN-FINDING: property={} {} ({})", id, d, sig);
            } else if r.violation.is_none() {
                r.violation = Some(Violation { choices: vec![], desc: format!("{} ({}), not listed in known_findings.txt", d, sig), notes: vec![], reproducible: true });
            }
        }
        println!(
            "{} [{}] bound={} executions={} inner={} states={} transitions={} distinct={} exhaustive={} {:.1}s slowest={:.2}s {:?}",
            id, format!("{} {}", r.stage, BUILD), r.bound, r.executions, r.inner_runs, r.states + r.inner_steps, r.transitions + r.inner_steps, r.distinct, r.exhaustive, r.wall, r.slowest, r.labels
        );
        if let Some(v) = &r.violation {
            let f = write_replay(id, t, s.name, v);
            println!("{} [{}] {} | {}", id, s.name, v.desc, v.notes.join("; "));
            println!("VIOLATION property={} replay={}", id, f);
            rc = 1;
        }
        reps.push((r, s.rule));
        if rc != 0 {
            break;
        }
    }
    if only.is_none() || rc != 0 {
        write_evidence(id, t, &reps, rc as u64, t0.elapsed().as_secs_f64());
        if let Ok(p) = std::env::var("RVMC_DUMP") {
            write_reports(&p, &reps, t0.elapsed().as_secs_f64());
        }
    }
    rc
}

fn tier_from(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect()
}

/// Runs one case; exit 1 if it violates.
fn one(id: &str, t: Tier, stage: &str, choices: &[u32]) -> i32 {
    install_panic_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    let sts = stages(id, t);
    let s = match sts.iter().enumerate().find(|(i, s)| s.name == stage || i.to_string() == stage) {
        Some(s) => s.1,
        None => {
            eprintln!("no stage {}", stage);
            return 2;
        }
    };
    let ch = std::thread::scope(|sc| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || replay(s.bound, choices, &*s.body)).unwrap().join());
    let (r, notes, div) = match ch {
        Ok(x) => x,
        Err(_) => return 2,
    };
    for n in notes {
        println!("  {}", n);
    }
    if div {
        println!("replay diverged: the case does not exist in this tree/tier");
        return 2;
    }
    match r {
        Ok(o) => {
            println!("no violation ({})", o.label);
            0
        }
        Err(d) => {
            println!("{}", d);
            1
        }
    }
}

fn name_of(exe: &std::path::Path) -> &'static str {
    if exe.parent().map(|p| p.ends_with("plain")).unwrap_or(false) {
        "plain"
    } else {
        "checked"
    }
}

/// Explores with one build, in a process of its own.
fn build(exe: &std::path::Path, id: &str, tier: &str, jpath: &std::path::Path) -> i32 {
    let st = Command::new(exe).args(["child", id, tier, jpath.to_str().unwrap()]).status();
    match st {
        Ok(s) => match s.code() {
            Some(c @ 0..=2) => c,
            _ => {
                // The child died: a crash counts only if one of the cases in flight crashes again on its own.
                eprintln!("{}: child ended with {:?}; re-running the cases in flight", id, s);
                let mut rc = 2;
                for (si, choices) in read_journal(jpath.to_str().unwrap()) {
                    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
                    let r = Command::new(exe).args(["one", id, tier, &si.to_string(), &c.join(",")]).status();
                    if r.map(|r| r.code().is_none() || r.code() == Some(101)).unwrap_or(false) {
                        let t = tier_from(tier);
                        let sts = stages(id, t);
                        let name = sts.get(si as usize).map(|s| s.name).unwrap_or("?");
                        let v = Violation { choices, desc: "the process is killed (stack overflow, abort or memory exhaustion)".into(), notes: vec![], reproducible: true };
                        let f = write_replay_of(name_of(exe), id, t, name, &v);
                        let rep = Report { stage: name.into(), build: name_of(exe).into(), executions: 1, states: 1, violation: Some(v), ..Default::default() };
                        write_evidence(id, t, &[(rep, "stopped by a crash")], 1, 0.0);
                        println!("VIOLATION property={} replay={}", id, f);
                        rc = 1;
                        break;
                    }
                }
                rc
            }
        },
        Err(e) => {
            eprintln!("cannot start child: {}", e);
            2
        }
    }
}

fn main() {
    // error values must not pay for backtraces
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    // scratch files of this run, removed by the process that made them
    let made = if std::env::var("RVMC_TMP").is_err() {
        let d = std::env::temp_dir().join(format!("rvmc-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        std::env::set_var("RVMC_TMP", &d);
        Some(d)
    } else {
        None
    };
    let env_tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("child") => child(&a[2], tier_from(&a[3]), a.get(4).map(|s| s.as_str())),
        Some("one") => one(&a[2], tier_from(&a[3]), &a[4], &parse_choices(a.get(5).map(|s| s.as_str()).unwrap_or(""))),
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string())).unwrap_or_default();
            let exe = std::env::current_exe().expect("exe");
            if get("build") == "plain" && BUILD != "plain" {
                let plain = exe.parent().and_then(|p| p.parent()).map(|p| p.join("plain/rvmc")).expect("plain build");
                let rc = Command::new(plain).args(["replay", &a[2]]).status().ok().and_then(|s| s.code()).unwrap_or(1);
                if let Some(d) = &made {
                    let _ = std::fs::remove_dir_all(d);
                }
                std::process::exit(rc);
            }
            one(&get("property"), tier_from(&get("tier")), &get("stage"), &parse_choices(&get("choices")))
        }
        Some("check") => {
            let id = &a[2];
            let tier = a.get(3).cloned().unwrap_or(env_tier);
            let exe = std::env::current_exe().expect("exe");
            let _ = std::fs::remove_file(format!("{}/evidence/{}.json", ROOT, id));
            let jpath = std::env::temp_dir().join(format!("rvmc-journal-{}-{}", id, std::process::id()));
            let dump = std::env::temp_dir().join(format!("rvmc-reports-{}-{}", id, std::process::id()));
            std::env::set_var("RVMC_DUMP", &dump);
            let mut rc = build(&exe, id, &tier, &jpath);
            let plain = exe.parent().and_then(|p| p.parent()).map(|p| p.join("plain/rvmc")).expect("plain build");
            if rc == 0 && std::env::var("RVMC_CHECKED_ONLY").is_err() {
                std::env::remove_var("RVMC_DUMP");
                std::env::set_var("RVMC_PREV", &dump);
                let _ = std::fs::remove_file(&jpath);
                rc = build(&plain, id, &tier, &jpath);
            }
            let _ = std::fs::remove_file(&dump);
            let _ = std::fs::remove_file(&jpath);
            rc
        }
        #[cfg(rvmc_stepped)]
        Some("step") => {
            install_panic_hook();
            let n: Vec<u64> = a[3..].iter().map(|x| x.parse().expect("number")).collect();
            props_e2e::step(&a[2], &n);
            0
        }
        _ => {
            eprintln!("usage: rvmc check <ID> [quick|thorough] | replay <file>");
            2
        }
    };
    if let Some(d) = made {
        let _ = std::fs::remove_dir_all(d);
    }
    std::process::exit(rc);
}
