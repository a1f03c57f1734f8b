//! C19: the hcl2json command.

use super::{mapping, parse, t};
use crate::engine::{Case, Fail, Prop, Res, Test};
use crate::ensure;
use crate::mutate;
use crate::src::Src;
use hcl::eval::Evaluate;
use serde_json::Value as J;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C19", rule: "the command read at least one document of at least 12 bytes" });
    ts.push(t("C19", "convert", 5_000, 60_000, convert));
    ts.push(t("C19", "glob", 4_000, 40_000, glob));
    ts.push(t("C19", "large", 400, 6_000, large));
    ts.push(t("C19", "unwritable", 300, 3_000, unwritable));
}

static DIRS: AtomicU64 = AtomicU64::new(0);

/// A directory that goes away with its contents.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let root = std::env::var("HV_ROOT").unwrap_or_else(|_| "/verif".into());
        let d = PathBuf::from(root).join("work").join("c19").join(format!("{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn binary() -> PathBuf {
    std::env::var("HCL2JSON").unwrap_or_else(|_| "/verif/target/cli/debug/hcl2json".into()).into()
}

/// What the library makes of a document.
fn reading(content: &[u8], simplify: bool) -> Option<J> {
    let text = std::str::from_utf8(content).ok()?;
    if simplify {
        let mut b: hcl::Body = hcl::from_str(text).ok()?;
        let _ = b.evaluate_in_place(&hcl::eval::Context::new());
        hcl::from_body(b).ok()
    } else {
        hcl::from_str(text).ok()
    }
}

fn json(j: &J, pretty: bool) -> String {
    if pretty {
        serde_json::to_string_pretty(j).unwrap()
    } else {
        serde_json::to_string(j).unwrap()
    }
}

fn content(s: &mut Src, c: &mut Case) -> Vec<u8> {
    match s.weighted(&[10, 6, 4, 3, 2, 2, 1]) {
        0 => mapping::document(s, c).1.into_bytes(),
        1 => {
            let crlf = s.chance(1, 6);
            parse::doc(s, c, crlf, false).1.text.into_bytes()
        }
        2 => constant(s).into_bytes(),
        3 => {
            let d = parse::doc(s, c, false, false).1.text;
            let m = mutate::mutate(s, &d);
            if mutate::depth(&m) > 30 {
                d.into_bytes()
            } else {
                m.into_bytes()
            }
        }
        4 => s.pick(&["a = ", "a {", "= 1", "a = 1 b = 2", "a = 1\na = 2\n", "}", "\"a\" = 1", "{\"a\": 1}", "a = \"x", "a = <<E\n"]).as_bytes().to_vec(),
        5 => vec![],
        _ => b"a = \"\xff\xfe\"\n".to_vec(),
    }
}

/// A document with something to simplify.
fn constant(s: &mut Src) -> String {
    let n = s.range(1, 4);
    (0..n)
        .map(|i| {
            let e = s.pick(&[
                "1 + 1",
                "2 * (3 + 4)",
                "\"x${1 + 1}\"",
                "true ? [1] : [2]",
                "x + 1 * 2",
                "[for v in [1, 2] : v * 2]",
                "{ a = 1 + 1, (b) = 2 }",
                "f(1 + 2, 3)",
                "1 / 0",
                "!true && y",
                "\"%{ if true }yes%{ else }no%{ endif }\"",
                "[1, 2, 3][1]",
                "-(1)",
                "x ? 1 : 2",
                "<<E\n${1 + 2}\nE",
            ]);
            format!("k{i} = {e}\n")
        })
        .collect()
}

fn show(args: &[String], files: &[(String, Vec<u8>)], stdin: &[u8]) -> String {
    let mut t = format!("hcl2json {}\n", args.join(" "));
    for (n, b) in files {
        t.push_str(&format!("--- {n}\n{}\n", String::from_utf8_lossy(b)));
    }
    if !stdin.is_empty() {
        t.push_str(&format!("--- standard input\n{}", String::from_utf8_lossy(stdin)));
    }
    t
}

struct Out {
    ok: bool,
    stdout: Vec<u8>,
    stderr: String,
}

fn run(dir: &Path, args: &[String], stdin: &[u8], stdout: Stdio) -> Result<Out, Fail> {
    let fail = |e: std::io::Error| Fail::new("spawn", format!("{}: {e}", binary().display()));
    let mut ch = Command::new(binary())
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::piped())
        .stdout(stdout)
        .stderr(Stdio::piped())
        .env("RAYON_NUM_THREADS", "2")
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .map_err(fail)?;
    let mut pipe = ch.stdin.take().unwrap();
    let data = stdin.to_vec();
    // Input larger than a pipe holds would otherwise block.
    let w = std::thread::spawn(move || {
        let _ = pipe.write_all(&data);
    });
    let o = ch.wait_with_output().map_err(fail)?;
    let _ = w.join();
    // Killed by a signal: a crash.
    ensure!(o.status.code().is_some(), "crash", "{}: {}", o.status, String::from_utf8_lossy(&o.stderr));
    ensure!(o.status.code() != Some(101), "panic", "{}", String::from_utf8_lossy(&o.stderr));
    Ok(Out { ok: o.status.success(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() })
}

fn judge(o: &Out, want: &Option<String>) -> Res {
    match want {
        Some(w) => {
            ensure!(o.ok, "failed", "exited with a failure: {}\nexpected {w}", o.stderr);
            let got = String::from_utf8_lossy(&o.stdout);
            ensure!(got == *w, "output", "wrote {got}\nexpected {w}");
        }
        None => {
            ensure!(!o.ok, "accepted", "exited successfully and wrote {}", String::from_utf8_lossy(&o.stdout));
            ensure!(o.stdout.is_empty(), "partial", "exited with a failure, but wrote {}", String::from_utf8_lossy(&o.stdout));
            ensure!(!o.stderr.is_empty(), "silent", "exited with a failure without saying why");
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Default)]
struct Flags {
    pretty: bool,
    simplify: bool,
    paths: bool,
    carry_on: bool,
}

fn flags(s: &mut Src, c: &mut Case) -> (Flags, Vec<String>) {
    let f = Flags { pretty: s.bool(), simplify: s.bool(), paths: s.chance(1, 3), carry_on: s.chance(1, 2) };
    let mut args = Vec::new();
    let mut short = String::new();
    for (on, l, sh, label) in [(f.pretty, "--pretty", 'p', "pretty"), (f.simplify, "--simplify", 's', "simplify"), (f.paths, "--file-paths", 'P', "file-paths"), (f.carry_on, "--continue-on-error", 'C', "continue")] {
        if on {
            c.label(label);
            match s.below(3) {
                0 => args.push(l.to_string()),
                1 => args.push(format!("-{sh}")),
                _ => short.push(sh),
            }
        }
    }
    if !short.is_empty() {
        args.push(format!("-{short}"));
    }
    (f, args)
}

/// Documents from standard input and from files.
fn convert(s: &mut Src, c: &mut Case) -> Res {
    let (f, mut args) = flags(s, c);
    let dir = Scratch::new();
    let mut files: Vec<(String, Vec<u8>)> = Vec::new();
    let mut stdin = Vec::new();
    let mode = s.weighted(&[2, 1, 4, 4]);
    let missing = s.chance(1, 12);
    let want: Option<String> = match mode {
        0 | 1 => {
            c.label(if mode == 0 { "stdin" } else { "stdin-dash" });
            stdin = content(s, c);
            if mode == 1 {
                args.insert(s.range(0, args.len()), "-".into());
            }
            reading(&stdin, f.simplify).map(|j| json(&j, f.pretty))
        }
        2 => {
            c.label("file");
            let d = content(s, c);
            let want = if missing { None } else { reading(&d, f.simplify).map(|j| json(&j, f.pretty)) };
            files.push(("one.hcl".into(), d));
            args.insert(s.range(0, args.len()), if missing { "other.hcl".into() } else { "one.hcl".into() });
            want
        }
        _ => {
            c.label("files");
            let n = s.range(2, 4);
            for i in 0..n {
                let d = content(s, c);
                files.push((format!("{i}.hcl"), d));
            }
            let mut order: Vec<Option<usize>> = (0..n).map(Some).collect();
            for i in (1..n).rev() {
                order.swap(i, s.range(0, i));
            }
            if s.chance(1, 6) {
                // The same one twice.
                order.push(order[0]);
            }
            if missing {
                order.insert(s.range(0, order.len()), None);
            }
            let names: Vec<String> = order.iter().map(|o| o.map_or("none.hcl".into(), |i| format!("{i}.hcl"))).collect();
            let read: Vec<(String, Option<J>)> = order.iter().zip(&names).map(|(o, n)| (n.clone(), o.and_then(|i| reading(&files[i].1, f.simplify)))).collect();
            for n in names {
                args.push(n);
            }
            bulk(&read, f).map(|j| json(&j, f.pretty))
        }
    };
    for (n, b) in &files {
        std::fs::write(dir.0.join(n), b).expect("write");
    }
    c.input = show(&args, &files, &stdin);
    c.nontrivial = files.iter().map(|f| &f.1).chain([&stdin]).any(|b| b.len() >= 12);
    c.label(if want.is_some() { "converted" } else { "refused" });
    let o = run(&dir.0, &args, &stdin, Stdio::piped())?;
    judge(&o, &want)
}

fn bulk(read: &[(String, Option<J>)], f: Flags) -> Option<J> {
    if !f.carry_on && read.iter().any(|r| r.1.is_none()) {
        return None;
    }
    let ok = read.iter().filter_map(|(n, j)| j.clone().map(|j| (n.clone(), j)));
    Some(if f.paths { J::Object(ok.collect()) } else { J::Array(ok.map(|x| x.1).collect()) })
}

// --- directories ---------------------------------------------------------------------------------

/// Whether a name matches a pattern without separators (byte by byte, like the library in use).
fn wild(p: &[u8], n: &[u8]) -> bool {
    match p.first() {
        None => n.is_empty(),
        Some(b'*') => (0..=n.len()).any(|i| wild(&p[1..], &n[i..])),
        Some(b'?') => !n.is_empty() && wild(&p[1..], &n[1..]),
        Some(b'[') => {
            let end = p.iter().position(|c| *c == b']').unwrap();
            !n.is_empty() && p[1..end].contains(&n[0]) && wild(&p[end + 1..], &n[1..])
        }
        Some(b'{') => {
            let end = p.iter().position(|c| *c == b'}').unwrap();
            p[1..end].split(|c| *c == b',').any(|alt| {
                let q: Vec<u8> = alt.iter().chain(&p[end + 1..]).copied().collect();
                wild(&q, n)
            })
        }
        Some(c) => n.first() == Some(c) && wild(&p[1..], &n[1..]),
    }
}

fn matches(pat: &[&str], path: &[&str]) -> bool {
    match pat.first() {
        None => path.is_empty(),
        Some(&"**") if pat.len() == 1 => !path.is_empty(),
        Some(&"**") => (0..=path.len()).any(|i| matches(&pat[1..], &path[i..])),
        Some(p) => {
            !path.is_empty() && wild(p.as_bytes(), path[0].as_bytes()) && matches(&pat[1..], &path[1..])
        }
    }
}

const NAMES: [&str; 15] = ["a", "b", "B", "Main", "_z", "ab", "main", "x.y", "ü", "a b", ".h", "[z]", "{q,r}", "w*", "!k"];
const EXTS: [&str; 4] = [".tf", ".hcl", ".tf", ""];
const PATTERNS: [&str; 14] =
    ["*.tf", "**/*.tf", "*", "**/*", "**", "*.{tf,hcl}", "**/{a,main}.tf", "?.tf", "**/[ab].tf", "sub/*.tf", "**/sub/*.hcl", "*/*", "**/a*", "none/*.x"];

/// Documents from directories.
fn glob(s: &mut Src, c: &mut Case) -> Res {
    let (f, mut args) = flags(s, c);
    let dir = Scratch::new();
    let dirs: Vec<String> = (0..s.range(1, 2)).map(|i| format!("{}{i}", s.pick(&["d", "dir", "d e", "[m]", "a{b}", "st*r", "q?", "n[!", "ö"]))).collect();
    let mut files: Vec<(String, Vec<u8>)> = Vec::new();
    // Where links lead to.
    let store = dir.0.join("store");
    std::fs::create_dir_all(store.join("empty")).expect("mkdir");
    let mut links = String::new();
    for d in &dirs {
        if s.chance(1, 8) {
            c.label("linked-directory");
            std::fs::create_dir_all(store.join(d)).expect("mkdir");
            std::os::unix::fs::symlink(store.join(d), dir.0.join(d)).expect("link");
            links.push_str(&format!("--- {d} is a link\n"));
        } else {
            std::fs::create_dir_all(dir.0.join(d)).expect("mkdir");
        }
        let n = s.range(0, 5);
        for _ in 0..n {
            let mut path = d.clone();
            let depth = s.weighted(&[5, 3, 1]);
            for _ in 0..depth {
                path.push('/');
                path.push_str(s.pick(&["sub", "a", "b.tf", "[z]", "none"]));
            }
            path.push('/');
            path.push_str(s.pick(&NAMES));
            path.push_str(s.pick(&EXTS));
            let full = dir.0.join(&path);
            // Nothing is put into linked directories.
            let top = dir.0.join(d);
            let linked = full.ancestors().skip(1).take_while(|a| *a != top).any(|a| a.is_symlink());
            if linked || full.symlink_metadata().is_ok() || std::fs::create_dir_all(full.parent().unwrap()).is_err() {
                continue;
            }
            let b = content(s, c);
            // A link to a file is one, others are not.
            let target = match s.below(16) {
                1 | 2 => {
                    c.label("link");
                    let at = store.join(files.len().to_string());
                    std::fs::write(&at, &b).expect("write");
                    Some(at)
                }
                3 => {
                    c.label("other-link");
                    Some(store.join(s.pick(&["nothing", "empty"])))
                }
                _ => None,
            };
            if let Some(t) = &target {
                if std::os::unix::fs::symlink(t, &full).is_err() {
                    continue;
                }
                links.push_str(&format!("--- {path} is a link to {}\n", t.strip_prefix(&dir.0).unwrap().display()));
                if t.is_file() {
                    files.push((path, b));
                }
            } else if std::fs::write(&full, &b).is_ok() {
                files.push((path, b));
            }
        }
    }
    let plain = if s.chance(1, 3) {
        let b = content(s, c);
        std::fs::write(dir.0.join("plain.hcl"), &b).expect("write");
        Some(b)
    } else {
        None
    };
    let pattern = s.chance(11, 12).then(|| *s.pick(&PATTERNS));
    if let Some(p) = pattern {
        c.label(p);
        match s.below(3) {
            0 => args.extend(["--glob".into(), p.to_string()]),
            1 => args.push(format!("--glob={p}")),
            _ => args.extend(["-g".into(), p.to_string()]),
        }
    }
    let mut read: Vec<(String, Option<J>)> = Vec::new();
    let mut order: Vec<Option<&String>> = dirs.iter().map(Some).collect();
    if plain.is_some() {
        order.insert(s.range(0, order.len()), None);
    }
    for o in order {
        let Some(d) = o else {
            args.push("plain.hcl".into());
            read.push(("plain.hcl".into(), reading(plain.as_ref().unwrap(), f.simplify)));
            continue;
        };
        // How a path is written is how it is reported.
        let written = if s.chance(1, 5) { format!("./{d}") } else { d.clone() };
        args.push(written.clone());
        let pat: Vec<&str> = pattern.unwrap_or("").split('/').collect();
        let mut hits: Vec<(Vec<&str>, &Vec<u8>)> = files
            .iter()
            .filter_map(|(p, b)| {
                let rest: Vec<&str> = p.strip_prefix(d.as_str())?.strip_prefix('/')?.split('/').collect();
                matches(&pat, &rest).then_some((rest, b))
            })
            .collect();
        hits.sort();
        for (rest, b) in hits {
            read.push((format!("{written}/{}", rest.join("/")), reading(b, f.simplify)));
        }
    }
    c.input = show(&args, &files, &[]) + &links;
    if let Some(p) = &plain {
        c.input.push_str(&format!("--- plain.hcl\n{}", String::from_utf8_lossy(p)));
    }
    c.nontrivial = files.iter().any(|f| f.1.len() >= 12) && !read.is_empty();
    let want = if pattern.is_none() { None } else { bulk(&read, f) };
    c.label(if want.is_some() { "converted" } else { "refused" });
    let o = run(&dir.0, &args, &[], Stdio::piped())?;
    judge(&o, &want.map(|j| json(&j, f.pretty)))?;
    if pattern.is_some() && f.carry_on {
        for (n, _) in read.iter().filter(|r| r.1.is_none()) {
            ensure!(o.stderr.contains(n.as_str()), "unreported", "{n} is ignored silently: {:?}", o.stderr);
        }
    }
    Ok(())
}

/// Documents larger than any buffer.
fn large(s: &mut Src, c: &mut Case) -> Res {
    let (f, mut args) = flags(s, c);
    let part = mapping::document(s, c).1;
    let n = s.range(20, 400);
    let pad = *s.pick(&["", "ü", "日本"]);
    let mut text = String::new();
    for i in 0..n {
        text.push_str(&format!("b{} \"{pad}{i}\" {{\n{part}\n}}\n", i % 3));
        if text.len() > 200_000 {
            break;
        }
    }
    if s.chance(1, 8) {
        text.push_str("a = [");
    }
    let want = reading(text.as_bytes(), f.simplify).map(|j| json(&j, f.pretty));
    let dir = Scratch::new();
    let mut stdin = Vec::new();
    if s.bool() {
        stdin = text.clone().into_bytes();
    } else {
        std::fs::write(dir.0.join("large.tf"), &text).expect("write");
        args.push("large.tf".into());
    }
    c.input = format!("hcl2json {} with {n} times {part:?} and {pad:?}", args.join(" "));
    c.nontrivial = text.len() > 8192;
    let o = run(&dir.0, &args, &stdin, Stdio::piped())?;
    judge(&o, &want)
}

/// Output that cannot be written is not lost silently.
fn unwritable(s: &mut Src, c: &mut Case) -> Res {
    let (_, args) = flags(s, c);
    let stdin = if s.bool() { mapping::document(s, c).1.into_bytes() } else { content(s, c) };
    c.input = show(&args, &[], &stdin);
    c.nontrivial = stdin.len() >= 12;
    let dir = Scratch::new();
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| Fail::new("spawn", format!("/dev/full: {e}")))?;
    let o = run(&dir.0, &args, &stdin, Stdio::from(full))?;
    ensure!(!o.ok, "unwritten", "exited successfully although nothing could be written");
    Ok(())
}
