//! Programs that exercise the procedural macros: many small items are compiled together with the
//! real macro crate, by the real compiler, and run.
use std::{
    collections::{BTreeMap, HashMap},
    path::{Path, PathBuf},
    process::Command,
};

/// What became of one item.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// compiled; these are the lines its run produced
    Ran(Vec<String>),
    /// the compiler rejects it
    Rejected(String),
    /// the program containing it died
    Died(String),
}

fn die(m: String) -> ! {
    eprintln!("{m}");
    std::process::exit(2)
}
fn harness_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("harness")
}
pub fn scratch(name: &str) -> PathBuf {
    let t = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| harness_dir().join("target"));
    let d = t.join("corpus").join(format!("{name}-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap_or_else(|e| die(format!("{}: {e}", d.display())));
    d
}
/// `--extern` arguments for the crates that cargo has built for this harness.
fn externs(names: &[&str]) -> Vec<String> {
    let o = Command::new("cargo").args(["build", "--offline", "--lib", "--message-format=json"]).current_dir(harness_dir()).output().unwrap_or_else(|e| die(format!("cargo: {e}")));
    if !o.status.success() {
        die(format!("cargo build failed: {}", String::from_utf8_lossy(&o.stderr)));
    }
    let text = String::from_utf8_lossy(&o.stdout);
    let mut out = vec![];
    for n in names {
        let f = text
            .lines()
            .filter(|l| l.contains("\"reason\":\"compiler-artifact\"") && l.contains(&format!("\"name\":\"{n}\"")))
            .flat_map(|l| l.split('"'))
            .find(|s| s.ends_with(".rlib") && s.contains(&format!("/lib{n}")))
            .unwrap_or_else(|| die(format!("no library for {n}")));
        out.push("--extern".into());
        out.push(format!("{n}={f}"));
    }
    out
}

/// Compile and run all `items`. Each becomes `mod s<index> { <text> }` and must contain
/// `pub fn run(out: &mut dyn FnMut(String))`; `prelude` is put before, at the root of the crate.
pub fn build(name: &str, names: &[&str], prelude: &str, items: &[String], main: &str, most: usize) -> Vec<Item> {
    let t0 = std::time::Instant::now();
    let dir = scratch(name);
    let ext = externs(names);
    let deps = std::env::current_exe().unwrap().parent().unwrap().join("deps");
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    // small enough for the compiler's memory
    let chunks = items.len().div_ceil(most).max(n.min(items.len())).max(1);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let all = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= chunks {
                    return;
                }
                let mine: Vec<(usize, String)> = items.iter().cloned().enumerate().filter(|(i, _)| i % chunks == k).collect();
                let r = chunk(k, mine, &dir, &ext, &deps, prelude, main);
                all.lock().unwrap().extend(r);
            });
        }
    });
    let mut all = all.into_inner().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    eprintln!("{} programs compiled and run in {:.1}s", items.len(), t0.elapsed().as_secs_f64());
    (0..items.len()).map(|i| all.remove(&i).unwrap_or(Item::Died("no output".into()))).collect()
}

fn chunk(k: usize, mut mine: Vec<(usize, String)>, dir: &Path, ext: &[String], deps: &Path, prelude: &str, main: &str) -> HashMap<usize, Item> {
    let mut out = HashMap::new();
    let src = dir.join(format!("chunk{k}.rs"));
    let exe = dir.join(format!("chunk{k}"));
    let t0 = std::time::Instant::now();
    for round in 0.. {
        if mine.is_empty() {
            return out;
        }
        let mut text = format!("#![allow(warnings)]\n{prelude}\n");
        let mut line = text.lines().count() + 1;
        let mut ranges = vec![];
        for (i, t) in &mine {
            let m = format!("mod s{i} {{\n{t}\n}}\n");
            let len = m.lines().count();
            ranges.push((line, line + len, *i));
            line += len;
            text += &m;
        }
        text += &format!("{main}\nfn main() {{\n    before();\n");
        for (i, _) in &mine {
            text += &format!("    println!(\"@{i}\"); s{i}::run(&mut |s: String| println!(\"={{s:?}}\"));\n");
        }
        text += "    after();\n    println!(\"@end\");\n}\n";
        std::fs::write(&src, text).unwrap_or_else(|e| die(format!("{}: {e}", src.display())));
        let o = Command::new("rustc")
            .args(["--edition", "2021", "--error-format=short", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=4", "--crate-type=bin", "--crate-name", &format!("chunk{k}")])
            .arg("-L")
            .arg(format!("dependency={}", deps.display()))
            .args(ext)
            .arg("-o")
            .arg(&exe)
            .arg(&src)
            .output()
            .unwrap_or_else(|e| die(format!("rustc: {e}")));
        if o.status.success() {
            out.retain(|_, v| !matches!(v, Item::Ran(_)));
            // run it; an item that takes the program down is left out of the next run
            let o = Command::new(&exe).env("CORPUS_DIR", dir).output().unwrap_or_else(|e| die(format!("{}: {e}", exe.display())));
            let mut cur: Option<usize> = None;
            let mut ended = false;
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if l == "@end" {
                    ended = true;
                } else if let Some(i) = l.strip_prefix('@') {
                    cur = i.parse().ok();
                    if let Some(i) = cur {
                        out.entry(i).or_insert(Item::Ran(vec![]));
                    }
                } else if let (Some(s), Some(i)) = (l.strip_prefix('='), cur) {
                    if let Some(Item::Ran(v)) = out.get_mut(&i) {
                        v.push(unquote(s));
                    }
                }
            }
            if !ended {
                if let Some(i) = cur {
                    out.insert(i, Item::Died(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr))));
                }
            }
            let _ = std::fs::remove_file(&exe);
            match cur {
                _ if ended => return out,
                Some(i) if round < 6 => {
                    mine.retain(|m| m.0 != i);
                    continue;
                }
                _ => return out,
            }
        }
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let mut bad: HashMap<usize, String> = HashMap::new();
        for l in err.lines() {
            let Some(at) = l.find(&format!("chunk{k}.rs:")) else { continue };
            let Some((ln, rest)) = l[at + format!("chunk{k}.rs:").len()..].split_once(':') else { continue };
            if !rest.contains("error") {
                continue;
            }
            let Ok(ln) = ln.parse::<usize>() else { continue };
            if let Some((_, _, i)) = ranges.iter().find(|r| r.0 <= ln && ln < r.1) {
                bad.entry(*i).or_insert(rest.split_once("error").map(|x| x.1).unwrap_or("").to_string());
            }
        }
        if bad.is_empty() {
            die(format!("the corpus does not compile ({}): {err}", o.status));
        }
        mine.retain(|(i, _)| !bad.contains_key(i));
        out.extend(bad.into_iter().map(|(i, m)| (i, Item::Rejected(m))));
    }
    out
}
/// Undo the quoting of `{:?}`.
pub fn unquote(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.trim_matches('"').chars();
    let s2 = s.strip_prefix('"').and_then(|s| s.strip_suffix('"'));
    if let Some(s2) = s2 {
        it = s2.chars();
    }
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}
