//! G15: the code behind unsafe blocks under Miri and AddressSanitizer.
//! The histories are those of the program in harness/ub; this starts it and reads its reports.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read};
use std::process::{Command, Stdio};
use vcommon::{Ctx, root, tick};

struct Run {
    ok: bool,
    last: u64,
    done: bool,
    counts: BTreeMap<String, u64>,
    err: String,
}
fn run(mut c: Command) -> Run {
    let mut r = Run { ok: false, last: 0, done: false, counts: BTreeMap::new(), err: String::new() };
    let mut child = match c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            r.err = format!("cannot start: {e}");
            return r;
        }
    };
    let mut e = child.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    for l in BufReader::new(child.stdout.take().unwrap()).lines().map_while(Result::ok) {
        tick();
        if let Some(x) = l.strip_prefix("HISTORY ") {
            r.last = x.parse().unwrap_or(0);
        } else if let Some((n, k)) = l.strip_prefix("COUNT ").and_then(|x| x.split_once(' ')) {
            *r.counts.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
        } else if l == "DONE" {
            r.done = true;
        }
    }
    r.ok = child.wait().is_ok_and(|s| s.success());
    r.err = t.join().unwrap_or_default().lines().filter(|l| !l.starts_with("Failed to commit session")).collect::<Vec<_>>().join("\n");
    r
}
fn cargo(args: &[&str], target: &str) -> Command {
    let base = root();
    let mut c = Command::new("cargo");
    c.arg("+nightly")
        .args(args)
        .current_dir(base.join("harness/ub"))
        .env("CARGO_TARGET_DIR", base.join("target").join(target))
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("RUSTFLAGS");
    c
}
const ASAN: &str = "x86_64-unknown-linux-gnu";
fn miri(seed: u64, n: u64, secs: u64) -> Command {
    let (a, b, s) = (seed.to_string(), n.to_string(), secs.to_string());
    let mut c = cargo(&["miri", "run", "--quiet", "--offline", "--", &a, &b, &s, "1"], "miri");
    c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks");
    c
}
pub fn g15(x: &Ctx) {
    x.level("exploration");
    x.rule("no undefined behaviour reported by Miri (aliasing, dangling and uninitialised memory, data races) or AddressSanitizer in any history");
    x.assume("the storage engine is a stand-in written in safe Rust, with transactions allocated and freed like the real ones");
    x.assume("Miri's Stacked Borrows is the aliasing model");
    // built first, both at once
    let m = std::thread::spawn(|| run(miri(0, 0, 0)));
    let mut b = cargo(&["build", "--quiet", "--release", "--offline", "--target", ASAN], "asan");
    b.env("RUSTFLAGS", "-Zsanitizer=address -Cforce-frame-pointers=yes");
    let a = run(b);
    let m = m.join().unwrap();
    if !a.ok || !m.ok {
        x.error(format!("the program does not build: {} {}", tail(&a.err), tail(&m.err)));
        return;
    }
    let k = 8;
    let base = x.seed.wrapping_mul(1000);
    let (secs, each) = (x.n(80, 500), x.n(1500, 12_000));
    // one or two under Miri, the others as compiled
    let handles: Vec<_> = (0..k)
        .map(|i| std::thread::spawn(move || run(miri(base + i, 100_000, secs))))
        .collect();
    let mut runs: Vec<(&'static str, u64, Run)> = handles.into_iter().enumerate().map(|(i, h)| ("miri", base + i as u64, h.join().unwrap())).collect();
    let exe = root().join("target/asan").join(ASAN).join("release/vub");
    let handles: Vec<_> = (0..k)
        .map(|i| {
            let mut c = Command::new(&exe);
            c.args([(base + 500 + i).to_string(), each.to_string()]).env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1");
            std::thread::spawn(move || run(c))
        })
        .collect();
    runs.extend(handles.into_iter().enumerate().map(|(i, h)| ("asan", base + 500 + i as u64, h.join().unwrap())));
    for (how, seed, r) in &runs {
        for (k, n) in &r.counts {
            x.count(&format!("{how}: {k}"), *n);
        }
        for i in 0..*r.counts.get("histories").unwrap_or(&0) {
            x.eval(seed.wrapping_mul(1 << 20) + i, true);
        }
        if r.ok && r.done {
            continue;
        }
        let at = |n: &str| r.err.find(n).map(|i| r.err[i..].chars().take(4000).collect::<String>());
        let what = format!("vub {seed} {} 100000 {} under {how}, history {}\n", r.last + 1, u8::from(*how == "miri"), r.last);
        if let Some(t) = at("Undefined Behavior") {
            x.report("undefined-behaviour", how, *seed, what + &t);
        } else if let Some(t) = at("ERROR: AddressSanitizer") {
            x.report("memory-error", how, *seed, what + &t);
        } else {
            x.error(format!("{how} run with seed {seed} ended early: {}", tail(&r.err)));
        }
    }
    x.require("miri: histories", 8);
    x.require("miri: sessions that changed their transaction", 1);
    x.require("asan: sessions that changed their transaction", 1000);
    x.require("asan: sessions dropped", 200);
    x.sample(format!("{:?}", runs[0].2.counts));
}
fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(30)..].join("\n")
}
