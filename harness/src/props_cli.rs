//! C18-C20: the command line tool, run as a real process under controlled input, cuts and output faults.
use crate::deflate::*;
use crate::engine::*;
use crate::gen::*;
use crate::props_stream::{gz_bytes, GzHdr};
use crate::{stage, Stage, Tier, ROOT};
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::Arc;

pub fn stages(id: &str, t: Tier) -> Vec<Stage> {
    match id {
        "C18" => c18(t),
        "C19" => c19(t),
        "C20" => c20(t),
        _ => vec![],
    }
}

// ---------------------------------------------------------------- running the tool

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum In {
    Named,
    Stdin,
    /// through a pipe, in pieces of this size
    Pipe(usize),
    /// standard input that gives these bytes and then fails with EIO (a pty whose other end is closed)
    Failing,
    /// a named file that does not exist; a directory by name; a directory as standard input
    Missing,
    DirNamed,
    DirStdin,
    /// a file of this name in the current directory
    Called(usize),
    /// standard input that is a file from which so many bytes (of something else) were already read
    Offset(usize),
    /// a named pipe; a pipe called /dev/stdin; a socket
    Fifo,
    DevStdin,
    Socket,
    /// a pipe that gives these bytes and then has nothing for now
    Again,
    /// no standard input at all
    NoStdin,
}
/// Names a file may have (2: a link to the file; 3: in another directory).
const NAMES: [&[u8]; 24] = [
    b"a", b"1", b"link", b"sub/../sub/x", b"a b.gz", b".gz", b"x.txt", b"gz", b"\xff\xfe\x80", b"\xc3\xa9.gz", b"*", b"~", b"%s%n", b"help", b"a\nb", b"cat",
    b"-", b"x.zip", b"x.Z", b"x.tgz", b"x.tar.gz", b"x.gz.tmp", b"x.bz2", b"X.GZ",
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sink {
    Free,
    /// every write beyond this many bytes fails
    Room(u64),
    DevFull,
    /// a pipe nobody reads
    Closed,
    /// a pipe that is not read, holds so much, and says so rather than wait
    Stuck(i32),
    /// not open for writing
    ReadOnly,
    /// a file that already holds so many bytes, at its end; the same opened for appending
    At(usize),
    Append(usize),
    /// read by somebody while it is written
    Pipe,
    Socket,
}
/// What a file that is not empty holds already.
fn before(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"earlier "[i % 8]).collect()
}
fn socketpair() -> (File, File) {
    let mut p = [0i32; 2];
    assert!(unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) } == 0, "socketpair");
    unsafe { (File::from_raw_fd(p[0]), File::from_raw_fd(p[1])) }
}
fn pipe() -> (File, File) {
    let mut p = [0i32; 2];
    assert!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "pipe");
    unsafe { (File::from_raw_fd(p[0]), File::from_raw_fd(p[1])) }
}
/// Variables a user may well have set, none of which is about this program.
const COMMON_ENV: [(&str, &str); 10] = [
    ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("TERM", "dumb"), ("COLUMNS", "20"), ("LINES", "5"), ("GZIP", "-9"), ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "1"), ("NO_COLOR", "1"), ("POSIXLY_CORRECT", "1"),
];

struct Ran {
    /// None: killed by a signal
    code: Option<i32>,
    sig: Option<i32>,
    out: Vec<u8>,
}
impl Ran {
    fn good(&self) -> bool {
        self.code == Some(0)
    }
}

fn memfd(name: &str) -> File {
    let c = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    unsafe { File::from_raw_fd(fd) }
}

pub fn scratch() -> String {
    std::env::var("RVMC_TMP").expect("RVMC_TMP")
}

fn run(cmd: &str, input: &[u8], how: In, sink: Sink) -> Ran {
    run_env(cmd, input, how, sink, &[])
}
fn run_env(cmd: &str, input: &[u8], how: In, sink: Sink, vars: &[(&str, &str)]) -> Ran {
    let bin = format!("{}/target/{}/release/rezippers", ROOT, if crate::BUILD == "plain" { "cli" } else { "cli-checked" });
    let mut c = Command::new(bin);
    let mut failing = None;
    c.arg(cmd).env_clear().envs(vars.iter().cloned()).current_dir("/").stderr(Stdio::null());
    let mut feeder = None;
    let mut fifo = None;
    let mut held = None;
    let mut no_stdin = false;
    match how {
        In::Named => {
            let path = format!("{}/in-{:?}.gz", scratch(), std::thread::current().id()).replace(['(', ')'], "");
            std::fs::write(&path, input).expect("scratch input");
            c.arg(&path).stdin(Stdio::null());
        }
        In::Stdin => {
            let mut f = memfd("in");
            f.write_all(input).expect("input");
            f.seek(SeekFrom::Start(0)).expect("seek");
            c.stdin(f);
        }
        In::Pipe(_) => {
            c.stdin(Stdio::piped());
        }
        In::Failing => {
            let mut fds = [0i32; 2];
            let mut mode: libc::termios = unsafe { std::mem::zeroed() };
            unsafe { libc::cfmakeraw(&mut mode) };
            mode.c_cflag |= libc::CREAD | libc::CS8;
            let got = unsafe { libc::openpty(&mut fds[0], &mut fds[1], std::ptr::null_mut(), &mode, std::ptr::null_mut()) } == 0;
            // no terminals here: a pipe, whose end comes too early
            assert!(got || unsafe { libc::pipe(fds.as_mut_ptr()) } == 0, "pipe");
            for fd in fds {
                unsafe { libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC) };
            }
            c.stdin(unsafe { File::from_raw_fd(fds[0]) });
            failing = Some(unsafe { File::from_raw_fd(fds[1]) });
        }
        In::Missing => {
            c.arg(format!("{}/no/such/file.gz", scratch())).stdin(Stdio::null());
        }
        In::DirNamed => {
            c.arg(scratch()).stdin(Stdio::null());
        }
        In::Called(k) => {
            use std::os::unix::ffi::OsStrExt;
            let dir = format!("{}/named-{:?}", scratch(), std::thread::current().id()).replace(['(', ')'], "");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(format!("{}/sub", dir)).expect("scratch directory");
            let name = std::ffi::OsStr::from_bytes(NAMES[k]);
            let path = std::path::Path::new(&dir).join(name);
            if NAMES[k] == b"link" {
                std::fs::write(format!("{}/sub/real", dir), input).expect("scratch input");
                std::os::unix::fs::symlink("sub/real", &path).expect("link");
            } else {
                std::fs::write(&path, input).expect("scratch input");
            }
            c.arg(name).current_dir(&dir).stdin(Stdio::null());
        }
        In::DirStdin => {
            c.stdin(File::open(scratch()).expect("scratch directory"));
        }
        In::Offset(k) => {
            let mut f = memfd("in");
            f.write_all(&before(k)).expect("input");
            f.write_all(input).expect("input");
            f.seek(SeekFrom::Start(k as u64)).expect("seek");
            c.stdin(f);
        }
        In::Fifo => {
            let path = format!("{}/fifo-{:?}", scratch(), std::thread::current().id()).replace(['(', ')'], "");
            let _ = std::fs::remove_file(&path);
            let name = std::ffi::CString::new(path.clone()).unwrap();
            assert!(unsafe { libc::mkfifo(name.as_ptr(), 0o600) } == 0, "mkfifo");
            c.arg(&path).stdin(Stdio::null());
            let d = input.to_vec();
            let p = path.clone();
            feeder = Some(std::thread::spawn(move || {
                if let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(p) {
                    let _ = w.write_all(&d);
                }
            }));
            fifo = Some(path);
        }
        In::DevStdin | In::Socket => {
            let (rd, mut w) = if how == In::Socket { socketpair() } else { pipe() };
            if how == In::DevStdin {
                c.arg("/dev/stdin");
            }
            c.stdin(rd);
            let d = input.to_vec();
            feeder = Some(std::thread::spawn(move || {
                let _ = w.write_all(&d);
            }));
        }
        In::Again => {
            let (rd, mut w) = pipe();
            w.write_all(input).expect("a small input");
            use std::os::fd::AsRawFd;
            assert!(unsafe { libc::fcntl(rd.as_raw_fd(), libc::F_SETFL, libc::O_NONBLOCK) } == 0, "pipe");
            c.stdin(rd);
            held = Some(w);
        }
        In::NoStdin => no_stdin = true,
    }
    let mut out = None;
    let mut room = None;
    let mut taker = None;
    match sink {
        Sink::At(k) | Sink::Append(k) => {
            let mut f = memfd("out");
            f.write_all(&before(k)).expect("output");
            if let Sink::Append(_) = sink {
                use std::os::fd::AsRawFd;
                f.seek(SeekFrom::Start(0)).expect("seek");
                assert!(unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFL, libc::O_APPEND) } == 0, "append");
            }
            c.stdout(f.try_clone().expect("dup"));
            out = Some(f);
        }
        Sink::Pipe | Sink::Socket => {
            let (mut rd, w) = if sink == Sink::Socket { socketpair() } else { pipe() };
            c.stdout(w);
            taker = Some(std::thread::spawn(move || {
                let mut v = vec![];
                let _ = rd.read_to_end(&mut v);
                v
            }));
        }
        Sink::Free | Sink::Room(_) => {
            let f = memfd("out");
            c.stdout(f.try_clone().expect("dup"));
            out = Some(f);
            if let Sink::Room(n) = sink {
                room = Some(n);
            }
        }
        Sink::DevFull => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"));
        }
        Sink::Closed => {
            let mut p = [0i32; 2];
            assert!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "pipe");
            unsafe { libc::close(p[0]) };
            c.stdout(unsafe { File::from_raw_fd(p[1]) });
        }
        Sink::Stuck(n) => {
            let mut p = [0i32; 2];
            unsafe {
                assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0, "pipe");
                // (where this is not allowed, it holds what it holds)
                libc::fcntl(p[1], libc::F_SETPIPE_SZ, n);
                assert!(libc::fcntl(p[1], libc::F_SETFL, libc::O_NONBLOCK) == 0, "pipe");
            }
            out = Some(unsafe { File::from_raw_fd(p[0]) });
            c.stdout(unsafe { File::from_raw_fd(p[1]) });
        }
        Sink::ReadOnly => {
            c.stdout(File::open("/dev/null").expect("/dev/null"));
        }
    }
    unsafe {
        c.pre_exec(move || {
            let cpu = libc::rlimit { rlim_cur: 30, rlim_max: 30 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            if room.is_none() {
                // runaway output
                let l = libc::rlimit { rlim_cur: 64 << 20, rlim_max: 64 << 20 };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            if no_stdin {
                libc::close(0);
            }
            if let Some(n) = room {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            Ok(())
        });
    }
    let mut child = c.spawn().expect("cannot start the tool");
    if let In::Pipe(k) = how {
        let mut w = child.stdin.take().unwrap();
        for p in input.chunks(k) {
            if w.write_all(p).is_err() {
                break;
            }
        }
    }
    if let Some(mut w) = failing {
        // small enough for the terminal's buffer
        w.write_all(input).expect("terminal");
        drop(w);
    }
    drop(c);
    let st = child.wait().expect("wait");
    drop(held);
    if let Some(p) = fifo {
        // in case it was never opened
        let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&p);
        let _ = std::fs::remove_file(&p);
    }
    if let Some(t) = feeder {
        t.join().expect("feeder");
    }
    let mut v = vec![];
    if let Some(t) = taker {
        v = t.join().expect("taker");
    }
    if let Some(mut f) = out {
        if !matches!(sink, Sink::Stuck(_)) {
            f.seek(SeekFrom::Start(0)).expect("seek");
        }
        f.read_to_end(&mut v).expect("output");
    }
    Ran { code: st.code(), sig: st.signal(), out: v }
}

/// Content of `n` zero bytes (a little more than 1 byte per 1032): header, one dynamic block, footer.
fn zeros_file(n: u64) -> Vec<u8> {
    // a literal, then references of 258 bytes, two bits each; the rest as literals
    let refs = (n - 1) / 258;
    let rest = (n - 1) % 258;
    let mut codes = vec![C::L(0)];
    codes.extend(std::iter::repeat(r(1, 258)).take(refs as usize));
    codes.extend(std::iter::repeat(C::L(0)).take(rest as usize));
    let mut f = plain_hdr();
    f.extend(write_stream(&[make_dyn(codes, few_styles()[2])]).bytes);
    // CRC of n zero bytes, by squaring
    f.extend(crc_of_zeros(n).to_le_bytes());
    f.extend((n as u32).to_le_bytes());
    f
}
/// CRC-32 of `n` zero bytes: the register is a linear function of itself, applied n times.
pub fn crc_of_zeros(n: u64) -> u32 {
    let apply = |m: &[u32; 32], v: u32| (0..32).filter(|i| v >> i & 1 == 1).fold(0, |a, i| a ^ m[i]);
    // one zero byte
    let mut m = [0u32; 32];
    for (i, x) in m.iter_mut().enumerate() {
        let mut c = 1u32 << i;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 };
        }
        *x = c;
    }
    let (mut v, mut k) = (0xffff_ffffu32, n);
    while k > 0 {
        if k & 1 == 1 {
            v = apply(&m, v);
        }
        let mut sq = [0u32; 32];
        for i in 0..32 {
            sq[i] = apply(&m, m[i]);
        }
        m = sq;
        k >>= 1;
    }
    !v
}

/// Runs the tool with its output through a pipe, handed over piece by piece.
fn run_stream(cmd: &str, input: &[u8], mut take: impl FnMut(&[u8])) -> Option<i32> {
    let bin = format!("{}/target/{}/release/rezippers", ROOT, if crate::BUILD == "plain" { "cli" } else { "cli-checked" });
    let path = format!("{}/big-{:?}.gz", scratch(), std::thread::current().id()).replace(['(', ')'], "");
    std::fs::write(&path, input).expect("scratch input");
    let mut child = Command::new(bin).arg(cmd).arg(&path).env_clear().current_dir("/").stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped()).spawn().expect("cannot start the tool");
    let mut o = child.stdout.take().unwrap();
    let mut buf = vec![0u8; 1 << 20];
    loop {
        match o.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => take(&buf[..n]),
            Err(e) => panic!("{}", e),
        }
    }
    let st = child.wait().expect("wait");
    let _ = std::fs::remove_file(&path);
    st.code()
}

/// More than 4 GiB of content: lengths are kept modulo 2^32.
fn huge_stage(cmd: &'static str, th: bool) -> Stage {
    stage("huge", 0, "2^32 + 70000 (thorough also 2^32 - 1 and 2^32) bytes of content (quick: without debug assertions only)", move |ch| {
        let n = *ch.of(&[(1u64 << 32) + 70000, (1 << 32) - 1, 1 << 32][..if th { 3 } else { 1 }]);
        let f = zeros_file(n);
        ch.note(|| format!("{} of {} zero bytes ({} bytes of gzip)", cmd, n, f.len()));
        let zero = cmd == "zero";
        // what must come: for zero, the header, whole blocks of 8192 (the sum is always 0), one last block, the footer
        let h = plain_hdr().len() as u64;
        let blocks = if zero { n.div_ceil(8192) } else { 0 };
        let end = if zero { h + n + blocks * 5 + 8 } else { n };
        let foot: Vec<u8> = crc_of_zeros(n).to_le_bytes().into_iter().chain((n as u32).to_le_bytes()).collect();
        let last = n - blocks.saturating_sub(1) * 8192;
        let hdr = plain_hdr();
        let mut at = 0u64;
        let mut bad: Option<u64> = None;
        let z = vec![0u8; 1 << 20];
        let code = run_stream(cmd, &f, |p| {
            let mut p = p;
            while !p.is_empty() && bad.is_none() {
                if at >= end {
                    bad = Some(at);
                    return;
                }
                // the zeros that come next, or one byte of framing
                let (k, byte) = if !zero {
                    (end - at, 0)
                } else if at < h {
                    (0, hdr[at as usize])
                } else if at >= end - 8 {
                    (0, foot[(at - (end - 8)) as usize])
                } else {
                    let (b, o) = ((at - h) / 8197, (at - h) % 8197);
                    let len = if b + 1 == blocks { last } else { 8192 } as u16;
                    if o < 5 {
                        (0, [(b + 1 == blocks) as u8, len as u8, (len >> 8) as u8, !len as u8, (!len >> 8) as u8][o as usize])
                    } else {
                        (5 + len as u64 - o, 0)
                    }
                };
                let m = if k == 0 { 1 } else { (k as usize).min(p.len()).min(z.len()) };
                if if k == 0 { p[0] != byte } else { p[..m] != z[..m] } {
                    bad = Some(at);
                    return;
                }
                at += m as u64;
                p = &p[m..];
            }
        });
        if let Some(b) = bad {
            return Err(format!("{} of {} zero bytes: wrong output at byte {}", cmd, n, b));
        }
        if code != Some(0) || at != end {
            return Err(format!("{} of {} zero bytes: exit {:?} with {} of {} bytes of output", cmd, n, code, at, end));
        }
        ok("exact", n)
    })
}

fn gz(hdr: &[u8], blocks: &[B]) -> (Vec<u8>, Vec<u8>, usize) {
    let content = expand(blocks).expect("generated stream is valid");
    let mut f = hdr.to_vec();
    f.extend(write_stream(blocks).bytes);
    let end = f.len();
    f.extend(crc32(&content).to_le_bytes());
    f.extend((content.len() as u32).to_le_bytes());
    (f, content, end)
}

fn big_window(ch: &Ch, th: bool) -> Vec<B> {
    if th {
        window_stream(ch, &[0, 1, 300, 20000], &[32767, 32768, 32769, 40000, 65535], &[1, 100, 20000, 32505, 32506, 32507, 32766, 32767, 32768], &[3, 258], 1)
    } else {
        window_stream(ch, &[0, 1, 300], &[32767, 40000], &[1, 32506, 32507, 32767, 32768], &[258], 1)
    }
}
fn plain_hdr() -> Vec<u8> {
    gz_bytes(&GzHdr { flags: 0, extra: 0, name: 0, comment: 0, fill: 0 })
}
fn headers() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for flags in 0..32u8 {
        v.push(gz_bytes(&GzHdr { flags, extra: if flags & 4 != 0 { 3 } else { 0 }, name: 5, comment: 2, fill: 0 }));
    }
    v.push(gz_bytes(&GzHdr { flags: 0x1e, extra: 65535, name: 3000, comment: 9000, fill: 0 }));
    v
}
fn few_headers() -> Vec<Vec<u8>> {
    vec![plain_hdr(), gz_bytes(&GzHdr { flags: 0x1f, extra: 3, name: 4, comment: 2, fill: 0 })]
}
const WAYS: [In; 5] = [In::Named, In::Stdin, In::Pipe(1 << 16), In::Pipe(1000), In::Pipe(1)];

fn shown(r: &Ran) -> String {
    format!("exit {:?}{} with {} bytes of output", r.code, r.sig.map(|s| format!(" signal {}", s)).unwrap_or_default(), r.out.len())
}
fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}
fn fnv(d: &[u8]) -> u64 {
    d.iter().fold(0xcbf29ce484222325u64, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// The tool must print exactly `want` and succeed.
fn exactly(ch: &Ch, cmd: &str, file: &[u8], how: In, want: &[u8]) -> Result<Out, String> {
    ch.note(|| format!("{} {:?} of {}", cmd, how, hex(file)));
    let r = run(cmd, file, how, Sink::Free);
    if !r.good() || r.out != want {
        let d = first_diff(&r.out, want);
        return Err(format!(
            "{} {:?}: {}; expected success with {} bytes; first difference at {}: got {:?} wanted {:?}",
            cmd,
            how,
            shown(&r),
            want.len(),
            d,
            String::from_utf8_lossy(&r.out[d.saturating_sub(8)..(d + 24).min(r.out.len())]),
            String::from_utf8_lossy(&want[d.saturating_sub(8).min(want.len())..(d + 24).min(want.len())])
        ));
    }
    ok("exact", fnv(&r.out))
}
/// The tool must fail; what it printed must satisfy `pre`.
fn refused(ch: &Ch, cmd: &str, file: &[u8], how: In, right: Option<&[u8]>) -> Result<Out, String> {
    ch.note(|| format!("{} {:?} of {}", cmd, how, hex(file)));
    let r = run(cmd, file, how, Sink::Free);
    if r.good() {
        return Err(format!("{} {:?} of a damaged file ({}) succeeds", cmd, how, hex(file)));
    }
    if r.sig.is_some() {
        return Err(format!("{} {:?} of a damaged file: {}", cmd, how, shown(&r)));
    }
    if let Some(w) = right {
        if !w.starts_with(&r.out) {
            return Err(format!("{} {:?} of a cut file wrote {} bytes that do not begin the right output (differs at {})", cmd, how, r.out.len(), first_diff(&r.out, w)));
        }
    }
    ok("refused", fnv(&r.out))
}
/// With limited room: success exactly when all of it fits; otherwise failure and a prefix.
fn limited(ch: &Ch, cmd: &str, file: &[u8], want: &[u8], room: usize) -> Result<Out, String> {
    let r = run(cmd, file, In::Stdin, Sink::Room(room as u64));
    ch.note(|| format!("{} with room for {} of {} bytes: {}", cmd, room, want.len(), shown(&r)));
    let fits = room >= want.len();
    if r.good() != fits {
        return Err(format!("{}: room for {} of {} bytes of output: {}", cmd, room, want.len(), shown(&r)));
    }
    if !want.starts_with(&r.out) || (fits && r.out != want) {
        return Err(format!("{}: room for {} of {} bytes: wrong output at {}", cmd, room, want.len(), first_diff(&r.out, want)));
    }
    ok(if fits { "fits" } else { "failed" }, room as u64)
}
fn broken_sink(cmd: &str, file: &[u8], want: &[u8], sink: Sink) -> Result<Out, String> {
    let r = run(cmd, file, In::Stdin, sink);
    if r.good() && !want.is_empty() {
        return Err(format!("{} into {:?} loses {} bytes of output but succeeds", cmd, sink, want.len()));
    }
    ok("failed", want.len() as u64)
}

/// A pipe that takes only so much, and an output that is not open for writing.
fn refusing_sink(ch: &Ch, cmd: &str, whole: &dyn Fn(&[u8], &[u8]) -> Vec<u8>) -> Result<Out, String> {
    let n = *ch.of(&[0usize, 1, 100, 1023, 1024, 1025, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 140000]);
    let d = content(*ch.of(&[0usize, 1, 2, 3]), n);
    let b = wrapped(ch.pick(4), &d);
    let mut f = plain_hdr();
    f.extend(write_stream(&b).bytes);
    f.extend(crc32(&d).to_le_bytes());
    f.extend((n as u32).to_le_bytes());
    let want = whole(&f, &d);
    let sink = *ch.of(&[Sink::Stuck(4096), Sink::Stuck(65536), Sink::ReadOnly]);
    let r = run(cmd, &f, In::Stdin, sink);
    let label = match sink {
        Sink::Stuck(cap) => {
            if !want.starts_with(&r.out) {
                return Err(format!("{} into a full pipe of {} bytes writes {} bytes that do not begin the right output", cmd, cap, r.out.len()));
            }
            match (r.good(), r.out.len() == want.len()) {
                (true, false) => return Err(format!("{} into a full pipe of {} bytes writes {} of {} bytes but succeeds", cmd, cap, r.out.len(), want.len())),
                (false, true) => return Err(format!("{} into a pipe of {} bytes writes all {} bytes but fails", cmd, cap, want.len())),
                (true, true) => "fits",
                (false, false) if want.len() <= 1024 => return Err(format!("{} into an empty pipe of {} bytes writes {} of {} bytes and fails", cmd, cap, r.out.len(), want.len())),
                _ => "failed",
            }
        }
        _ if r.good() && !want.is_empty() => {
            return Ok(Out { label: "known-not-open-for-writing", hash: fnv(&f), known: Some(("stdout-not-open-for-writing", format!("{} succeeds although standard output is not open for writing (the standard library drops such output)", cmd))) });
        }
        _ => "failed",
    };
    ok(label, mix(fnv(&f), r.out.len() as u64))
}

/// Content of `n` bytes, several kinds.
fn content(kind: usize, n: usize) -> Vec<u8> {
    match kind {
        0 => pattern(n, 1),
        1 => b"abd\n".iter().cloned().cycle().take(n).collect(),
        2 => vec![b'x'; n],
        3 => (0..n).map(|i| if i + 1 == n { b'\n' } else { b'y' }).collect(),
        4 => (0..n).map(|i| if i == 0 { b'\n' } else { b'z' }).collect(),
        _ => vec![0; n],
    }
}
/// `data` as a stream: stored blocks, or one fixed block of literals, or runs.
fn wrapped(how: usize, data: &[u8]) -> Vec<B> {
    match how {
        0 => {
            let mut v: Vec<B> = data.chunks(40000).map(|c| B::Stored(c.to_vec())).collect();
            if v.is_empty() {
                v.push(B::Stored(vec![]));
            }
            v
        }
        1 => vec![B::Fixed(data.iter().map(|&b| C::L(b)).collect())],
        2 => vec![make_dyn(data.iter().map(|&b| C::L(b)).collect(), few_styles()[2])],
        _ => {
            // runs of 258 from the nearest period up to 4
            let mut c = vec![];
            let mut i = 0;
            while i < data.len() {
                let p = (1..=4.min(i)).find(|&p| i + 258 <= data.len() && (i..i + 258).all(|j| data[j] == data[j - p]));
                match p {
                    Some(p) => {
                        c.push(r(p as u16, 258));
                        i += 258;
                    }
                    None => {
                        c.push(C::L(data[i]));
                        i += 1;
                    }
                }
            }
            vec![B::Fixed(c)]
        }
    }
}

fn one_cut(file: &[u8], end: usize, at: usize) -> &[u8] {
    &file[..at.min(end)]
}

fn catalogue_files() -> Vec<(Vec<u8>, Vec<u8>, usize, Vec<B>)> {
    catalogue()
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            let h = &few_headers()[i % 2];
            let (f, c, e) = gz(h, &b);
            (f, c, e, b)
        })
        .collect()
}

fn damage_targets() -> Vec<(&'static str, Vec<u8>)> {
    crate::props_stream::targeted()
}

/// zero on a stream whose only fault is a reference to before the start of the data.
fn zero_far(ch: &Ch, file: &[u8], how: In) -> Result<Out, String> {
    ch.note(|| format!("zero {:?} of {}", how, hex(file)));
    let r = run("zero", file, how, Sink::Free);
    if r.sig.is_some() {
        return Err(format!("zero {:?}: {}", how, shown(&r)));
    }
    if r.good() {
        return Ok(Out { label: "known-far-reference", hash: fnv(file), known: Some(("zero-accepts-far-reference", "zero succeeds on a stream with a reference to before the start of the data (its decoder reads zeros there)".into())) });
    }
    ok("refused", fnv(file))
}

// ---------------------------------------------------------------- C18

fn stream_cfg(th: bool) -> Cfg {
    Cfg {
        max_blocks: 2,
        styles: if th { all_styles().into_iter().step_by(5).collect() } else { few_styles().into_iter().take(2).collect() },
        stored: if th { vec![0, 1, 300, 65535] } else { vec![0, 1, 300] },
        free: 0,
    }
}

fn cut_stage(cmd: &'static str, th: bool, right: fn(&[u8], &[u8]) -> Vec<u8>) -> Stage {
    let files = Arc::new(catalogue_files());
    stage("cuts", 0, "every file of the catalogue cut at every byte of its header and compressed stream: failure, and what was written begins the right output", move |ch| {
        let (f, c, end, _) = ch.of(&files[..]);
        let all: Vec<usize> = if *end <= 60 || th { (0..*end).collect() } else { (0..30).chain((30..*end).step_by(9)).chain(*end - 6..*end).collect() };
        let at = *ch.of(&all);
        let way = if at % 7 == 3 { In::Pipe(1) } else if at % 2 == 0 { In::Named } else { In::Stdin };
        let want = right(f, c);
        refused(ch, cmd, one_cut(f, *end, at), way, Some(&want))
    })
}

/// `n` bytes of content, mostly zero, with a block boundary at their end: in every 8192 bytes that end before
/// it there is exactly one or two non-zero bytes, and none in the last 8192.
fn sparse(n: usize) -> Vec<u8> {
    let mut d = vec![0u8; n];
    if n > 8192 {
        let mut at = n - 8193;
        loop {
            d[at] = 1;
            if at < 8000 {
                break;
            }
            at -= 8000;
        }
    }
    d
}

/// A fault right after content that fills buffers and blocks exactly.
fn late_faults_stage(cmd: &'static str, th: bool) -> Stage {
    stage("late-faults", 0, "content of a length around every buffer and block limit (0 to 131072), in each of four encodings, then a fault: nothing more, an unfinished block, a reserved block type, a wrong stored length, an unused symbol, a read error: failure", move |ch| {
        let mut ns = vec![0usize, 1, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 9000, 16383, 16384, 16385, 32767, 32768, 40960, 65534, 65535, 65536, 73728, 131070, 131072];
        if th {
            ns.extend((0..256).map(|i| i * 512));
        }
        let n = *ch.of(&ns);
        let d = match ch.pick(4) {
            0 => sparse(n.min(65535)),
            1 => vec![0; n],
            2 => vec![1; n],
            _ => pattern(n, 2),
        };
        let enc = ch.pick(4);
        let mut b = Bits::default();
        for x in wrapped(enc, &d) {
            write_block(&mut b, &x, false);
        }
        let kind = ch.pick(6);
        let last = kind > 0 && ch.flag();
        match kind {
            0 => {
                b.align();
            }
            1 => {
                b.bit(last);
                b.val(1, 2);
                b.bit(true); // not the beginning of the end-of-block code
                b.align();
            }
            2 => {
                b.bit(last);
                b.val(3, 2);
                b.align();
                b.raw(&[0; 12]);
            }
            3 => {
                b.bit(last);
                b.val(0, 2);
                b.align();
                b.raw(&[1, 0, 0, 0, 7, 7, 7, 7, 7, 7, 7, 7, 7]);
            }
            4 => {
                // literal/length symbol 286
                b.bit(last);
                b.val(1, 2);
                for i in (0..8).rev() {
                    b.bit(0b1100_0110u8 >> i & 1 == 1);
                }
                b.align();
                b.raw(&[0; 12]);
            }
            _ => {
                b.bit(last);
                b.val(0, 2);
                b.align();
                b.raw(&[1, 0]);
            }
        }
        let mut f = plain_hdr();
        f.extend_from_slice(&b.bytes);
        let way = if kind == 5 { In::Failing } else { *ch.of(&[In::Named, In::Stdin]) };
        ch.note(|| format!("{} of {} bytes, encoding {}, fault {}", cmd, d.len(), enc, kind));
        let right = if cmd == "cat" { Some(&d[..]) } else { None };
        refused(ch, cmd, &f, way, right).map_err(|e| format!("{} bytes of content, encoding {}, fault {}: {}", d.len(), enc, kind, e))
    })
}

/// Input that cannot be opened, or that fails to be read at some byte before the end of the stream.
fn input_fails_stage(cmd: &'static str, right: fn(&[u8], &[u8]) -> Vec<u8>) -> Stage {
    let files = Arc::new(catalogue_files());
    stage("input-fails", 0, "reading fails (with EIO, or for there is nothing for now) after every number of bytes before the end of the compressed stream, for every file of up to 60 bytes of the catalogue; no such file; a directory; no standard input: failure, and what was written begins the right output", move |ch| {
        let small: Vec<_> = files.iter().filter(|f| f.0.len() <= 60).collect();
        let k = ch.pick(small.len() + 4);
        if k >= small.len() {
            return refused(ch, cmd, &[], [In::Missing, In::DirNamed, In::DirStdin, In::NoStdin][k - small.len()], Some(&[]));
        }
        let (f, c, end, _) = small[k];
        let at = ch.pick(*end);
        refused(ch, cmd, &f[..at], *ch.of(&[In::Failing, In::Again]), Some(&right(f, c)))
    })
}

/// Named files are read whatever they are called.
fn names_stage(cmd: &'static str, right: fn(&[u8], &[u8]) -> Vec<u8>) -> Stage {
    let files = Arc::new(catalogue_files());
    stage("names", 0, "files of the current directory called by one letter, with spaces, without or with another extension (8), a single dash, with bytes that are no text, like an option's or command's name, through a link and through another directory", move |ch| {
        let (f, c, _, _) = &files[*ch.of(&[0usize, 1, files.len() / 2])];
        exactly(ch, cmd, f, In::Called(ch.pick(NAMES.len())), &right(f, c))
    })
}

/// Input and output are whatever the caller made them.
fn plumbing_stage(cmd: &'static str, right: fn(&[u8], &[u8]) -> Vec<u8>) -> Stage {
    let mut files: Vec<(Vec<u8>, Vec<u8>)> = catalogue_files().into_iter().map(|f| (f.0, f.1)).collect();
    files = vec![files[0].clone(), files[1].clone(), files[files.len() / 2].clone(), files[files.len() - 1].clone()];
    for n in [5000usize, 200_000] {
        let d = content(0, n);
        let (f, c, _) = gz(&plain_hdr(), &wrapped(1, &d));
        files.push((f, c));
    }
    let files = Arc::new(files);
    stage("plumbing", 0, "six files (to 200000 bytes) from a file already read in part, a named pipe, a pipe called /dev/stdin, a socket, into a file, behind what it holds, appended, a pipe, a socket; with and without common environment variables: exactly the output, nothing else touched", move |ch| {
        let (f, c) = ch.of(&files);
        let how = *ch.of(&[In::Named, In::Stdin, In::Offset(1), In::Offset(10), In::Offset(70000), In::Fifo, In::DevStdin, In::Socket]);
        let sink = *ch.of(&[Sink::Free, Sink::At(1), Sink::At(9000), Sink::Append(7), Sink::Pipe, Sink::Socket]);
        let vars: &[(&str, &str)] = if ch.flag() { &COMMON_ENV } else { &[] };
        let mut want = match sink {
            Sink::At(k) | Sink::Append(k) => before(k),
            _ => vec![],
        };
        want.extend(right(f, c));
        ch.note(|| format!("{} {:?} of {} into {:?}", cmd, how, hex(f), sink));
        let r = run_env(cmd, f, how, sink, vars);
        if !r.good() || r.out != want {
            return Err(format!("{} {:?} into {:?}: {}; expected success with {} bytes; first difference at {}", cmd, how, sink, shown(&r), want.len(), first_diff(&r.out, &want)));
        }
        ok("exact", fnv(&r.out))
    })
}

/// Every single-bit damage: judged by the reference decoder.
fn flip_stage(cmd: &'static str, th: bool, on_valid: fn(&[u8], &Decoded, usize) -> Option<Vec<u8>>, lenient: bool, resolves: bool) -> Stage {
    let files = Arc::new(catalogue_files());
    stage("bit-flips", 0, "every file of up to 60 (thorough 200) bytes of the catalogue with every single bit of the compressed stream flipped, judged by the reference decoder", move |ch| {
        let small: Vec<&(Vec<u8>, Vec<u8>, usize, Vec<B>)> = files.iter().filter(|f| f.0.len() <= if th { 200 } else { 60 }).collect();
        let (f, _, end, b) = *ch.of(&small);
        let hl = *end - write_stream(b).bytes.len();
        let bit = ch.pick((*end - hl) * 8);
        let mut g = f.clone();
        g[hl + bit / 8] ^= 1 << (bit % 8);
        let d = decode(&g[hl..]);
        let way = if bit % 2 == 0 { In::Named } else { In::Stdin };
        match (&d.end, d.far) {
            (End::Gray(_), _) => ok("unspecified", 0),
            (End::Complete { consumed }, far) if far.is_none() || !resolves => match on_valid(&g[..hl], &d, *consumed) {
                // with a footer that fits, so that checking it would be no fault
                Some(w) => {
                    let mut whole = g[..hl + *consumed].to_vec();
                    whole.extend(crc32(&d.out).to_le_bytes());
                    whole.extend((d.out.len() as u32).to_le_bytes());
                    exactly(ch, cmd, &whole, way, &w)
                }
                None => ok("unspecified", 0),
            },
            (End::Invalid("padding"), _) if lenient => ok("unspecified", 0),
            (End::Complete { .. }, Some(_)) if cmd == "zero" => zero_far(ch, &g, way),
            _ => refused(ch, cmd, &g, way, None),
        }
    })
}

fn targeted_stage(cmd: &'static str, lenient: bool, resolves: bool) -> Stage {
    let ts = Arc::new(damage_targets());
    stage("malformed", 0, "every malformed stream of a catalogue with one entry per rule of RFC 1951, and every damaged header, from a file and from standard input: failure", move |ch| {
        let n = ts.len();
        let heads: Vec<Vec<u8>> = {
            let ok = plain_hdr();
            let mut v = vec![vec![], vec![0x1f], b"PK\x03\x04".to_vec()];
            for (i, x) in [(0, 0x1e), (1, 0x8a), (2, 7), (2, 9), (2, 0), (3, 0x20), (3, 0x40), (3, 0x80), (3, 0xe0)] {
                let mut h = ok.clone();
                h[i] = x;
                v.push(h);
            }
            v
        };
        let k = ch.pick(n + heads.len());
        let way = *ch.of(&[In::Named, In::Stdin, In::Pipe(1)]);
        if k >= n {
            let h = &heads[k - n];
            let mut f = h.clone();
            if f.len() >= 10 {
                f.extend(gz(&[], &[B::Fixed(vec![C::L(b'a')])]).0);
            }
            return refused(ch, cmd, &f, way, Some(&[]));
        }
        let (what, s) = &ts[k];
        let d = decode(s);
        if matches!(d.end, End::Gray(_)) || (lenient && d.end == End::Invalid("padding")) || (matches!(d.end, End::Complete { .. }) && (d.far.is_none() || !resolves)) {
            return ok("unspecified", 0);
        }
        let mut f = plain_hdr();
        f.extend_from_slice(s);
        f.extend([0; 8]);
        // a stream that merely ends early would run on into the footer
        if decode(&f[10..]).end != d.end && matches!(d.end, End::Truncated) {
            f.truncate(f.len() - 8);
        }
        if cmd == "zero" && matches!(d.end, End::Complete { .. }) {
            return zero_far(ch, &f, way);
        }
        refused(ch, cmd, &f, way, None).map_err(|e| format!("{}: {}", what, e))
    })
}

fn c18(t: Tier) -> Vec<Stage> {
    let mut v = c18_stages(t);
    if t == Tier::Thorough {
        v.push(huge_stage("cat", true));
    }
    v
}
fn c18_stages(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let files = Arc::new(catalogue_files());
    let (f1, f2) = (files.clone(), files);
    let cfg = stream_cfg(th);
    let lens: Vec<usize> = if th {
        vec![0, 1, 2, 3, 255, 256, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 200000, 1 << 20]
    } else {
        vec![0, 1, 1023, 1024, 1025, 8191, 8192, 8193, 32768, 32769, 65535, 65536, 65537, 200000]
    };
    let hs = headers();
    let room_lens: Vec<usize> = vec![1, 2, 40, 1100, 9000, 70000];
    vec![
        stage("catalogue", 0, "every stream of the catalogue, read from a named file, standard input and pipes fed in pieces of 1, 1000 and 65536 bytes: exactly the content, success", move |ch| {
            let (f, c, _, _) = ch.of(&f1[..]);
            exactly(ch, "cat", f, *ch.of(&WAYS), c)
        }),
        stage("headers", 0, "all 32 header flag combinations and one with very long fields", move |ch| {
            let (f, c, _) = gz(ch.of(&hs), &[B::Fixed(vec![C::L(b'h'), r(1, 5)])]);
            exactly(ch, "cat", &f, *ch.of(&[In::Named, In::Stdin]), &c)
        }),
        stage("streams", 0, "every sequence of up to 2 blocks from menus of stored sizes, code phrases and description styles", move |ch| {
            let (f, c, _) = gz(&plain_hdr(), &stream(ch, &cfg));
            exactly(ch, "cat", &f, In::Stdin, &c)
        }),
        stage("lengths", 0, "content lengths around every buffer size (to 200000; thorough 1 MiB) x six kinds of content x four encodings", move |ch| {
            let c = content(ch.pick(6), *ch.of(&lens));
            let (f, c, _) = gz(&plain_hdr(), &wrapped(ch.pick(4), &c));
            exactly(ch, "cat", &f, *ch.of(&[In::Named, In::Stdin]), &c)
        }),
        stage("scale", 0, "many blocks, many codes, large stored blocks and long descriptions", move |ch| {
            let (f, c, _) = gz(&plain_hdr(), &scale_stream(ch, th, true, false));
            exactly(ch, "cat", &f, In::Stdin, &c)
        }),
        stage("window", 0, "histories of 32767 to 80000 bytes reached in several ways, then references of boundary distances", move |ch| {
            let (f, c, _) = gz(&plain_hdr(), &big_window(ch, th));
            exactly(ch, "cat", &f, *ch.of(&[In::Named, In::Stdin]), &c)
        }),
        cut_stage("cat", th, |_, c| c.to_vec()),
        names_stage("cat", |_, c| c.to_vec()),
        plumbing_stage("cat", |_, c| c.to_vec()),
        input_fails_stage("cat", |_, c| c.to_vec()),
        late_faults_stage("cat", th),
        flip_stage("cat", th, |_, d, _| Some(d.out.clone()), false, true),
        targeted_stage("cat", false, true),
        stage("output-room", 0, "output that fails after any number of bytes (every one for short outputs, every boundary for long): failure and a prefix; success when all fits", move |ch| {
            let n = *ch.of(&room_lens);
            let c = content(ch.pick(6), n);
            let rooms: Vec<usize> = if n <= 40 || (th && n <= 9000) { (0..=n + 1).collect() } else { vec![0, 1, n / 2, 1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, n - 1025, n - 1024, n - 1000, n - 2, n - 1, n, n + 1].into_iter().filter(|&k| k <= n + 1).collect() };
            let room = *ch.of(&rooms);
            let (f, c, _) = gz(&plain_hdr(), &wrapped(ch.pick(2), &c));
            limited(ch, "cat", &f, &c, room)
        }),
        stage("output-broken", 0, "every stream of the catalogue into a full device and into a closed pipe: failure", move |ch| {
            let (f, c, _, _) = ch.of(&f2[..]);
            broken_sink("cat", f, c, *ch.of(&[Sink::DevFull, Sink::Closed]))
        }),
        stage("output-refused", 0, "content of a length around every buffer size, in each of four encodings, into a pipe that is full at 4096 or 65536 bytes and says so, and into an output that is not open for writing: failure, and what was written begins the right output", move |ch| refusing_sink(ch, "cat", &|_, d| d.to_vec())),
    ]
}

// ---------------------------------------------------------------- C19

/// Sizes of the stored blocks the statement prescribes.
pub fn rsync_sizes(d: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut at = 0;
    loop {
        let rest = &d[at..];
        let mut n = rest.len().min(8192);
        let mut sum: u64 = rest[..n].iter().map(|&b| b as u64).sum();
        while n >= 8192 && n < rest.len() && n < 65535 && sum % 4096 != 0 {
            sum = sum + rest[n] as u64 - rest[n - 8192] as u64;
            n += 1;
        }
        v.push(n);
        at += n;
        if at == d.len() {
            return v;
        }
    }
}
fn zeroed(hdr: &[u8], d: &[u8]) -> Vec<u8> {
    let mut f = hdr.to_vec();
    let mut at = 0;
    for n in rsync_sizes(d) {
        f.push((at + n == d.len()) as u8);
        f.extend((n as u16).to_le_bytes());
        f.extend((!(n as u16)).to_le_bytes());
        f.extend_from_slice(&d[at..at + n]);
        at += n;
    }
    f.extend(crc32(d).to_le_bytes());
    f.extend((d.len() as u32).to_le_bytes());
    f
}
/// Independent of the size model: a valid gzip file of stored blocks with that header and content.
fn valid_zeroed(out: &[u8], hdr: &[u8], d: &[u8]) -> Result<(), String> {
    if !out.starts_with(hdr) {
        return Err("the header differs".into());
    }
    let s = decode(&out[hdr.len()..]);
    let End::Complete { consumed } = s.end else {
        return Err(format!("the result is not a valid stream: {:?}", s.end));
    };
    if s.blocks.iter().any(|b| !matches!(b, RB::Stored(_))) {
        return Err("a block is not stored".into());
    }
    if s.out != d {
        return Err(format!("content differs at {}", first_diff(&s.out, d)));
    }
    let foot = &out[hdr.len() + consumed..];
    let mut want = crc32(d).to_le_bytes().to_vec();
    want.extend((d.len() as u32).to_le_bytes());
    if foot != want {
        return Err(format!("footer {} instead of {}", hex(foot), hex(&want)));
    }
    Ok(())
}
/// RFC 1951 lets a description carry 31 or 32 distance lengths; zlib (and with it gzip) refuses such files.
fn zlib_refuses(blocks: &[RB]) -> bool {
    blocks.iter().any(|b| matches!(b, RB::Dyn(t, _) if (5..10).map(|i| (t[i] as u8) << (i - 5)).sum::<u8>() > 29 || (0..5).map(|i| (t[i] as u8) << i).sum::<u8>() > 29))
}
fn zero_exact(ch: &Ch, hdr: &[u8], file: &[u8], d: &[u8], how: In) -> Result<Out, String> {
    ch.note(|| format!("zero {:?} of {}", how, hex(file)));
    if zlib_refuses(&decode(&file[hdr.len()..]).blocks) {
        return ok("unspecified", 0);
    }
    let r = run("zero", file, how, Sink::Free);
    if !r.good() {
        return Err(format!("zero {:?} of a valid file with {} bytes of content: {}", how, d.len(), shown(&r)));
    }
    valid_zeroed(&r.out, hdr, d)?;
    let want = zeroed(hdr, d);
    if r.out != want {
        let got: Vec<usize> = decode(&r.out[hdr.len()..]).blocks.iter().map(|b| if let RB::Stored(x) = b { x.len() } else { 0 }).collect();
        return Err(format!("block sizes {:?} instead of {:?}", got, rsync_sizes(d)));
    }
    ok("exact", fnv(&r.out))
}

/// Content whose first block boundary is at 8192 + `k` (1..=4096 or beyond), by a sum that rises by one per byte.
fn ramp(k: usize, total: usize) -> Vec<u8> {
    // first 8192 bytes: sum = 4096 * m - k; then every byte that enters is one more than the one that leaves
    let mut d = vec![0u8; 8192];
    let mut want = 8192 - k % 4096;
    let mut i = 0;
    while want > 0 {
        let x = want.min(3);
        d[i % 8192] += x as u8;
        want -= x;
        i += 1;
    }
    while d.len() < total {
        let b = d[d.len() - 8192] + 1;
        d.push(b);
    }
    d.truncate(total);
    d
}

fn c19(t: Tier) -> Vec<Stage> {
    let mut v = c19_stages(t);
    let th = t == Tier::Thorough;
    if th || crate::BUILD == "plain" {
        v.push(huge_stage("zero", th));
    }
    v
}
fn c19_stages(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let files = Arc::new(catalogue_files());
    let (f1, f2, f3) = (files.clone(), files.clone(), files);
    let cfg = stream_cfg(th);
    let hs = headers();
    let mut lens: Vec<usize> = vec![0, 1, 2, 3, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 24576, 65534, 65535, 65536, 65537, 73726, 73727, 73728, 131069, 131070, 131071, 131072, 196605, 196606];
    if th {
        lens.extend([100, 4095, 4096, 4097, 8190, 8194, 32768, 40960, 57344, 65533, 65538, 262140, 262141, 262144, 524288, 1 << 20]);
    }
    let ks: Vec<usize> = if th { (0..=4096).collect() } else { (0..40).chain([100, 1000, 2047, 2048, 2049]).chain(4060..=4096).collect() };
    vec![
        stage("lengths", 0, "content lengths around every block limit (empty to 196606; thorough 1 MiB) x six kinds of content x two encodings: exactly the header, prescribed stored blocks, checksum and length", move |ch| {
            let d = content(ch.pick(6), *ch.of(&lens));
            let enc = *ch.of(&[0usize, 3]);
            let (f, d, _) = gz(&plain_hdr(), &wrapped(enc, &d));
            zero_exact(ch, &plain_hdr(), &f, &d, *ch.of(&[In::Named, In::Stdin]))
        }),
        stage("late-boundaries", 0, "mostly zero content whose block boundary falls at a chosen length from 8192 to 65535 (quick: the ends, around powers of two, and every 500; thorough: every 7), ending before, at, and after the boundary, or with a second such block", move |ch| {
            let mut ns: Vec<usize> = (8193..65530).step_by(if th { 7 } else { 500 }).collect();
            for m in [8192usize, 12288, 16384, 24576, 32768, 40960, 49152, 57344, 61440, 65534] {
                ns.extend([m - 1, m, m + 1].into_iter().filter(|m| (8193..=65535).contains(m)));
            }
            let n = *ch.of(&ns);
            let block = || sparse(n);
            let mut d = block();
            match ch.pick(4) {
                0 => {}
                1 => {
                    d.pop();
                }
                2 => d.push(3),
                _ => d.extend(block()),
            }
            let (f, d, _) = gz(&plain_hdr(), &wrapped(0, &d));
            zero_exact(ch, &plain_hdr(), &f, &d, In::Stdin)
        }),
        stage("boundaries", 0, "content whose block boundary falls 0 to 4096 bytes after the minimum (quick: 82 positions, thorough all), ending before, at, and after the boundary", move |ch| {
            let k = *ch.of(&ks);
            let total = match ch.pick(4) {
                0 => 8192 + k,
                1 => (8192 + k).saturating_sub(1),
                2 => 8192 + k + 1,
                _ => 8192 + k + 8192 + 77,
            };
            let d = ramp(k, total);
            let (f, d, _) = gz(&plain_hdr(), &wrapped(0, &d));
            zero_exact(ch, &plain_hdr(), &f, &d, In::Stdin)
        }),
        stage("catalogue", 0, "every stream of the catalogue, read from a named file, standard input and pipes fed in pieces", move |ch| {
            let (f, c, e, b) = ch.of(&f1[..]);
            let hl = e - write_stream(b).bytes.len();
            zero_exact(ch, &f[..hl], f, c, *ch.of(&WAYS))
        }),
        stage("headers", 0, "all 32 header flag combinations and one with very long fields", move |ch| {
            let h = ch.of(&hs);
            let (f, c, _) = gz(h, &[B::Fixed(vec![C::L(b'h'), r(1, 5)])]);
            zero_exact(ch, h, &f, &c, *ch.of(&[In::Named, In::Stdin]))
        }),
        stage("streams", 0, "every sequence of up to 2 blocks from menus of stored sizes, code phrases and description styles", move |ch| {
            let (f, c, _) = gz(&plain_hdr(), &stream(ch, &cfg));
            zero_exact(ch, &plain_hdr(), &f, &c, In::Stdin)
        }),
        stage("scale", 0, "many blocks, many codes, large stored blocks and long descriptions", move |ch| {
            let (f, c, _) = gz(&plain_hdr(), &scale_stream(ch, th, true, false));
            zero_exact(ch, &plain_hdr(), &f, &c, In::Stdin)
        }),
        stage("window", 0, "histories of 32767 to 80000 bytes reached in several ways, then references of boundary distances", move |ch| {
            let (f, c, _) = gz(&plain_hdr(), &big_window(ch, th));
            zero_exact(ch, &plain_hdr(), &f, &c, *ch.of(&[In::Named, In::Stdin]))
        }),
        stage("cuts", 0, "every file of the catalogue cut at every byte of its header and compressed stream: failure", {
            let th = th;
            move |ch| {
                let (f, _, end, _) = ch.of(&f2[..]);
                let all: Vec<usize> = if *end <= 60 || th { (0..*end).collect() } else { (0..30).chain((30..*end).step_by(9)).chain(*end - 6..*end).collect() };
                let at = *ch.of(&all);
                let way = if at % 7 == 3 { In::Pipe(1) } else if at % 2 == 0 { In::Named } else { In::Stdin };
                refused(ch, "zero", one_cut(f, *end, at), way, None)
            }
        }),
        names_stage("zero", |f, c| zeroed(&f[..if f[3] == 0 { 10 } else { few_headers()[1].len() }], c)),
        plumbing_stage("zero", |f, c| zeroed(&f[..if f[3] == 0 { 10 } else { few_headers()[1].len() }], c)),
        input_fails_stage("zero", |f, c| zeroed(&f[..if f[3] == 0 { 10 } else { few_headers()[1].len() }], c)),
        late_faults_stage("zero", th),
        flip_stage("zero", th, |h, d, _| if zlib_refuses(&d.blocks) { None } else { Some(zeroed(h, &d.out)) }, true, true),
        targeted_stage("zero", true, true),
        stage("output-room", 0, "output that fails after any number of bytes (every one for short outputs, every boundary for long): failure and a prefix; success when all fits", move |ch| {
            let n = *ch.of(&[0usize, 1, 20, 1100, 9000, 70000]);
            let d = content(ch.pick(6), n);
            let (f, d, _) = gz(&plain_hdr(), &wrapped(0, &d));
            let want = zeroed(&plain_hdr(), &d);
            let m = want.len();
            let rooms: Vec<usize> = if m <= 45 || (th && m <= 9100) { (0..=m + 1).collect() } else { vec![0, 1, 9, 10, 11, 15, 16, m / 2, 1023, 1024, 1025, 8191, 8192, 8206, 8207, 8208, 65535, 65536, m - 1025, m - 1024, m - 9, m - 8, m - 7, m - 4, m - 3, m - 1, m, m + 1].into_iter().filter(|&k| k <= m + 1).collect() };
            let room = *ch.of(&rooms);
            limited(ch, "zero", &f, &want, room)
        }),
        stage("output-broken", 0, "every stream of the catalogue into a full device and into a closed pipe: failure", move |ch| {
            let (f, _, _, _) = ch.of(&f3[..]);
            broken_sink("zero", f, b"never empty", *ch.of(&[Sink::DevFull, Sink::Closed]))
        }),
        stage("output-refused", 0, "content of a length around every buffer size, in each of four encodings, into a pipe that is full at 4096 or 65536 bytes and says so, and into an output that is not open for writing: failure, and what was written begins the right output", move |ch| refusing_sink(ch, "zero", &|f, d| zeroed(&f[..10], d))),
    ]
}

// ---------------------------------------------------------------- C20

fn listing(blocks: &[RB]) -> String {
    let mut s = String::new();
    let mut codes = |s: &mut String, c: &[C]| {
        for c in c {
            match *c {
                C::L(b) => s.push_str(&format!("    - lit: 0x{:02x}: {:?}\n", b, b as char)),
                C::R { len, dist, .. } => s.push_str(&format!("    - backref: {} byte(s) back, {} bytes long\n", dist, len)),
            }
        }
    };
    for (i, b) in blocks.iter().enumerate() {
        s.push_str(&format!("block {}:\n", i));
        match b {
            RB::Stored(d) => s.push_str(&format!(" - uncompressed: {} bytes\n", d.len())),
            RB::Fixed(c) => {
                s.push_str(" - fixed huffman:\n");
                codes(&mut s, c);
            }
            RB::Dyn(t, c) => {
                s.push_str(&format!(" - dynamic huffman: BitVec: {}: {}\n", t.len(), t.iter().map(|&b| if b { '1' } else { '0' }).collect::<String>()));
                codes(&mut s, c);
            }
        }
    }
    s
}

/// The listing of the whole file.
fn whole_listing(f: &[u8], _: &[u8]) -> Vec<u8> {
    let hl = if f[3] == 0 { 10 } else { few_headers()[1].len() };
    listing(&decode(&f[hl..]).blocks).into_bytes()
}

fn c20(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let files = Arc::new(catalogue_files());
    let (f1, f3) = (files.clone(), files);
    let cfg = stream_cfg(th);
    let hs = headers();
    let outs: Vec<Vec<B>> = vec![
        vec![B::Stored(vec![])],
        vec![B::Fixed(vec![])],
        vec![B::Fixed(vec![C::L(b'a'), r(1, 258)])],
        vec![make_dyn(vec![C::L(b'a'), r(1, 4)], few_styles()[0])],
        vec![B::Stored(vec![1; 5]), B::Fixed(vec![C::L(10)]), B::Stored(vec![])],
        vec![B::Fixed(pattern(5000, 3).into_iter().map(C::L).collect()), B::Stored(vec![2])],
    ];
    let list2 = |b: &[B]| listing(&b.iter().map(to_rb).collect::<Vec<_>>());
    let list = |b: &[B]| listing(&b.iter().map(to_rb).collect::<Vec<_>>());
    vec![
        stage("catalogue", 0, "every stream of the catalogue, read from a named file, standard input and pipes fed in pieces: exactly the listing, success", move |ch| {
            let (f, _, _, b) = ch.of(&f1[..]);
            exactly(ch, "dump", f, *ch.of(&WAYS), list(b).as_bytes())
        }),
        stage("headers", 0, "all 32 header flag combinations and one with very long fields", move |ch| {
            let b = [B::Fixed(vec![C::L(b'h'), r(1, 5)])];
            let (f, _, _) = gz(ch.of(&hs), &b);
            exactly(ch, "dump", &f, *ch.of(&[In::Named, In::Stdin]), list(&b).as_bytes())
        }),
        stage("streams", 0, "every sequence of up to 2 blocks from menus of stored sizes, code phrases and description styles", move |ch| {
            let b = stream(ch, &cfg);
            let (f, _, _) = gz(&plain_hdr(), &b);
            exactly(ch, "dump", &f, In::Stdin, list(&b).as_bytes())
        }),
        stage("scale", 0, "many blocks, many codes, large stored blocks and long descriptions", move |ch| {
            let b = scale_stream(ch, th, true, false);
            let (f, _, _) = gz(&plain_hdr(), &b);
            exactly(ch, "dump", &f, In::Stdin, list(&b).as_bytes())
        }),
        stage("codes", 0, "one file with every literal, one with every length, one with every distance boundary (thorough: all 32768 distances), fixed and dynamic; stored blocks of boundary sizes", move |ch| {
            let mut pre = vec![];
            let codes: Vec<C> = match ch.pick(4) {
                0 => (0..=255u8).map(C::L).collect(),
                1 => [C::L(b'a')].into_iter().chain((3..=258).map(|n| r(1, n))).collect(),
                2 => {
                    pre.push(B::Stored(pattern(32768, 0)));
                    let mut ds: Vec<u16> = if th { (1..=32768).collect() } else { (0..30).flat_map(|i| [DIST_BASE[i], DIST_BASE[i] + if i < 4 { 0 } else { (1u16 << ((i - 2) / 2)) - 1 }]).collect() };
                    ds.dedup();
                    ds.into_iter().map(|d| r(d, 3)).collect()
                }
                _ => {
                    let sizes: Vec<usize> = vec![0, 1, 9, 10, 255, 256, 999, 1000, 32768, 65534, 65535];
                    let b: Vec<B> = sizes.iter().map(|&n| B::Stored(pattern(n, n))).collect();
                    let (f, _, _) = gz(&plain_hdr(), &b);
                    return exactly(ch, "dump", &f, *ch.of(&[In::Named, In::Stdin]), list(&b).as_bytes());
                }
            };
            pre.push(if ch.flag() { B::Fixed(codes) } else { make_dyn(codes, few_styles()[2]) });
            let (f, _, _) = gz(&plain_hdr(), &pre);
            exactly(ch, "dump", &f, *ch.of(&[In::Named, In::Stdin]), list(&pre).as_bytes())
        }),
        cut_stage("dump", th, whole_listing),
        names_stage("dump", whole_listing),
        plumbing_stage("dump", whole_listing),
        input_fails_stage("dump", whole_listing),
        late_faults_stage("dump", th),
        flip_stage("dump", th, |_, d, _| Some(listing(&d.blocks).into_bytes()), false, false),
        targeted_stage("dump", false, false),
        stage("output-room", 0, "output that fails after any number of bytes of the listing (quick: every byte of short ones, ends and buffer boundaries of long ones): failure and a prefix; success when all fits", move |ch| {
            let b = ch.of(&outs);
            let (f, _, _) = gz(&plain_hdr(), b);
            let w = list2(b);
            let m = w.len();
            let rooms: Vec<usize> = if m <= 100 || (th && m <= 9100) { (0..=m + 1).collect() } else { vec![0, 1, 8, 9, 10, m / 2, 1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, m.saturating_sub(1025), m.saturating_sub(1024), m - 40, m - 2, m - 1, m, m + 1].into_iter().filter(|&k| k <= m + 1).collect() };
            limited(ch, "dump", &f, w.as_bytes(), *ch.of(&rooms))
        }),
        stage("output-broken", 0, "every stream of the catalogue into a full device and into a closed pipe: failure", move |ch| {
            let (f, c, _, _) = ch.of(&f3[..]);
            broken_sink("dump", f, &whole_listing(f, c), *ch.of(&[Sink::DevFull, Sink::Closed]))
        }),
        stage("output-refused", 0, "content of a length around every buffer size, in each of four encodings, into a pipe that is full at 4096 or 65536 bytes and says so, and into an output that is not open for writing: failure, and what was written begins the right output", move |ch| refusing_sink(ch, "dump", &|f, d| whole_listing(f, d))),
    ]
}
