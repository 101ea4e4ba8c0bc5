//! Command line: runs a check over many worker processes, shrinks and replays failures.
use crate::engine::{install_panic_hook, last_panic, Case};
use crate::gen;
use crate::props::{self, Fail, Prop, Report};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    #[serde(default)]
    pub message: String,
    #[serde(default)]
    pub history: Vec<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub case: Option<Case>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub probe: Option<String>,
    #[serde(default)]
    pub origin: String,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    nontrivial: u64,
    counts: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    fail: Option<(u64, String, Vec<String>)>,
}

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
fn num(args: &[String], name: &str, d: u64) -> u64 {
    opt(args, name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

/// Runs one case; a panic that escapes the runner is a failure of the case.
pub fn run_case(prop: &Prop, p: &crate::engine::Profile, case: &Case, keep: bool) -> Result<Report, Fail> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(case, p, keep)));
    crate::locks::off();
    match r {
        Ok(r) => r,
        Err(_) => Err(Fail { msg: format!("unexpected panic: {}", last_panic()), trace: vec![] }),
    }
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    if cmd == "list" {
        for p in &props {
            println!("{} {} {}", p.id, p.quick, p.thorough);
        }
        return 0;
    }
    install_panic_hook();
    crate::locks::heart();
    if cmd == "exec-case" {
        watch();
    }
    if cmd == "replay" || cmd == "exec-case" {
        return replay(&props, &args[1..], cmd == "exec-case");
    }
    let Some(prop) = opt(&args, "--prop").and_then(find) else {
        eprintln!("usage: xv check|worker|shrink --prop ID ..., xv replay FILE, xv list");
        return 2;
    };
    match cmd {
        "check" => check(prop, &args),
        "worker" => worker(prop, &args),
        "shrink" => shrink(prop, &args),
        "show" => {
            let s = gen::strategy(prop);
            let c = gen::case(prop, &s, num(&args, "--seed", 1), num(&args, "--index", 0));
            let p = (prop.profile)();
            match run_case(prop, &p, &c, true) {
                Ok(r) => {
                    for l in &r.trace {
                        println!("{l}");
                    }
                    println!("nontrivial={} {:?}", r.nontrivial, r.counts);
                }
                Err(f) => println!("FAIL {} {:#?}", f.msg, f.trace),
            }
            0
        }
        _ => 2,
    }
}

// ------------------------------------------------------------------ worker

fn worker(prop: &Prop, args: &[String]) -> i32 {
    let (seed, from, to, step) = (num(args, "--seed", 1), num(args, "--from", 0), num(args, "--to", 0), num(args, "--step", 1));
    let (skip, out, status) = (num(args, "--skip", u64::MAX), opt(args, "--out").unwrap(), opt(args, "--status").unwrap());
    let mut st = std::fs::File::create(status).unwrap();
    let hashes = std::fs::OpenOptions::new().create(true).append(true).open(format!("{out}.hashes")).unwrap();
    let mut hashes = std::io::BufWriter::new(hashes);
    let strat = gen::strategy(prop);
    let p = (prop.profile)();
    let mut w = WorkerOut::default();
    let mut i = from;
    let mut best = 0;
    while i < to {
        if i != skip {
            st.seek(SeekFrom::Start(0)).unwrap();
            st.write_all(&i.to_le_bytes()).unwrap();
            let case = gen::case(prop, &strat, seed, i);
            let keep = w.samples.len() < 2 || w.evaluations % 500 == 7;
            let began = Instant::now();
            let ran = run_case(prop, &p, &case, keep);
            if let (Ok(f), true) = (std::env::var("XV_SLOW"), began.elapsed().as_millis() > 1500) {
                use std::io::Write;
                let _ = std::fs::OpenOptions::new().create(true).append(true).open(f).and_then(|mut f| writeln!(f, "{} seed {seed} case {i}: {:?}", prop.id, began.elapsed()));
            }
            match ran {
                Ok(r) => {
                    w.evaluations += 1;
                    for (k, n) in r.counts {
                        *w.counts.entry(k.to_string()).or_default() += n;
                    }
                    if r.nontrivial {
                        w.nontrivial += 1;
                        hashes.write_all(&r.hash.to_le_bytes()).unwrap();
                        if keep && r.trace.len() > best && r.trace.len() < 45 {
                            best = r.trace.len();
                            w.samples.push(serde_json::json!({"index": i, "history": r.trace}));
                            if w.samples.len() > 3 {
                                w.samples.remove(0);
                            }
                        }
                    }
                }
                Err(mut f) => {
                    if f.msg.len() > 4000 {
                        let end = (0..=2000).rev().find(|&i| f.msg.is_char_boundary(i)).unwrap_or(0);
                        f.msg = format!("{} ...", &f.msg[..end]);
                    }
                    w.fail = Some((i, f.msg, f.trace));
                    break;
                }
            }
        }
        i += step;
    }
    hashes.flush().unwrap();
    std::fs::write(out, serde_json::to_vec(&w).unwrap()).unwrap();
    0
}

// ------------------------------------------------------------------ shrinking and replay

fn write_replay(path: &Path, r: &Replay) {
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    std::fs::write(path, serde_json::to_vec_pretty(r).unwrap()).unwrap();
}
/// Exit 0: holds. 3: fails (message on stdout). Anything else: the process died.
fn sub_exec(path: &Path) -> (Verdict, String) {
    let mut c = limited(&["exec-case", path.to_str().unwrap()]);
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let st = wait_for(&mut ch, Duration::from_secs(240));
    let mut s = String::new();
    if let Some(mut o) = ch.stdout.take() {
        let _ = o.read_to_string(&mut s);
    }
    let mut e = String::new();
    if let Some(mut o) = ch.stderr.take() {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        e = String::from_utf8_lossy(&b).into_owned();
    }
    (verdict(st), if s.trim().is_empty() { tail(&e) } else { s.trim().to_string() })
}
fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    // sanitizer reports say what happened near the top
    if let Some(x) = l.iter().find(|x| x.contains("ERROR: AddressSanitizer")) {
        return x.to_string();
    }
    l.iter().rev().take(3).rev().cloned().collect::<Vec<_>>().join(" | ")
}
#[derive(Debug, PartialEq, Clone)]
enum Verdict {
    Holds,
    Fails,
    /// the process died in a way only the code under test can cause
    Dies(String),
    /// used its whole budget of processor time
    Spins,
    /// wall-clock limit or an outside kill: no answer
    Unknown(String),
}
fn verdict(st: Option<ExitStatus>) -> Verdict {
    let Some(st) = st else { return Verdict::Unknown("no answer within the wall-clock limit".into()) };
    match (st.code(), st.signal()) {
        (Some(0), _) => Verdict::Holds,
        (Some(3), _) => Verdict::Fails,
        (Some(1), _) => Verdict::Dies("sanitizer report".into()), // AddressSanitizer
        (Some(SPINS), _) => Verdict::Spins,
        (Some(c), _) => Verdict::Unknown(format!("exit code {c}")),
        (_, Some(s @ (4 | 5 | 6 | 7 | 8 | 11))) => Verdict::Dies(format!("signal {s}")),
        (_, s) => Verdict::Unknown(format!("signal {s:?}")),
    }
}
fn limited(args: &[&str]) -> Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("/bin/sh");
    // a memory limit where the address space is not the sanitizer's
    let v = if cfg!(sanitized) { String::new() } else { "ulimit -v 16000000; ".to_string() };
    c.arg("-c").arg(format!("ulimit -c 0; {v}exec \"$0\" \"$@\"")).arg(exe).args(args);
    c.stdin(Stdio::null());
    c
}
/// Seconds of processor time used by this process.
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let mut f = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11);
    let mut n = || f.next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 100.0;
    n() + n()
}
/// Ends the process when a single call uses a minute of processor time. A slow case is none.
fn watch() {
    std::thread::spawn(|| {
        let now = || crate::engine::PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
        let (mut seen, mut since) = (now(), cpu());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if now() != seen {
                (seen, since) = (now(), cpu());
            } else if cpu() - since > 60.0 {
                std::process::exit(SPINS);
            }
        }
    });
}
const SPINS: i32 = 24;
fn wait_for(c: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 200 { 2 } else { 20 }));
    }
}

fn replay(props: &[Prop], args: &[String], quiet: bool) -> i32 {
    let Some(r) = args.first().and_then(|f| std::fs::read(f).ok()).and_then(|b| serde_json::from_slice::<Replay>(&b).ok()) else {
        eprintln!("not a replay file");
        return 2;
    };
    let Some(prop) = props.iter().find(|p| p.id == r.property) else {
        eprintln!("unknown property");
        return 2;
    };
    if let Some(key) = &r.probe {
        return match crate::probes::all().iter().find(|p| p.key == key) {
            Some(p) => match (p.run)() {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    if quiet { 3 } else { 1 }
                }
            },
            None => 2,
        };
    }
    let case = r.case.unwrap_or_default();
    let p = (prop.profile)();
    let n = if quiet { 2 } else { 5 };
    for _ in 0..n {
        match run_case(prop, &p, &case, !quiet) {
            Ok(rep) => {
                if !quiet {
                    for l in rep.trace {
                        println!("  {l}");
                    }
                    println!("holds");
                }
            }
            Err(f) => {
                if !quiet {
                    for l in f.trace {
                        println!("  {l}");
                    }
                    println!("VIOLATION property={} replay={}", r.property, args[0]);
                }
                println!("{}", f.msg);
                return if quiet { 3 } else { 1 };
            }
        }
    }
    0
}

/// Regenerates the failing case, minimises it and writes the replay file.
fn shrink(prop: &Prop, args: &[String]) -> i32 {
    let (seed, index) = (num(args, "--seed", 1), num(args, "--index", 0));
    let out = PathBuf::from(opt(args, "--out").unwrap());
    let strat = gen::strategy(prop);
    let p = (prop.profile)();
    let t = gen::tree(prop, &strat, seed, index);
    let mut last = String::new();
    let sub = args.iter().any(|a| a == "--sub");
    let tmp = out.with_extension("tmp");
    let mut rep = Replay { property: prop.id.into(), message: String::new(), history: vec![], case: None, probe: None, origin: format!("seed {seed}, case {index}") };
    let mut fails = |c: &Case| -> bool {
        let f = if sub {
            let r = Replay { case: Some(c.clone()), ..rep.clone() };
            write_replay(&tmp, &r);
            match sub_exec(&tmp) {
                (Verdict::Fails, m) => Some(m),
                (Verdict::Dies(s), m) => Some(format!("the process dies ({s}): {m}")),
                (Verdict::Spins, _) => Some("a call does not return".into()),
                _ => None,
            }
        } else {
            (0..2).find_map(|_| run_case(prop, &p, c, false).err()).map(|f| f.msg)
        };
        if let Some(m) = &f {
            last = m.clone();
        }
        f.is_some()
    };
    let (best, n) = gen::shrink(t, &mut fails, if sub { 600 } else { 4000 }, if sub { 60 } else { 40 });
    rep.origin += &format!(", {n} shrink steps");
    rep.message = last;
    rep.case = Some(best.clone());
    let _ = std::fs::remove_file(&tmp);
    write_replay(&out, &rep);
    if !sub {
        // with the readable history
        if let Some(f) = (0..3).find_map(|_| run_case(prop, &p, &best, true).err()) {
            rep.history = f.trace;
            rep.message = f.msg;
            write_replay(&out, &rep);
        }
    }
    0
}

// ------------------------------------------------------------------ check

struct W {
    child: Child,
    from: u64,
    out: PathBuf,
    status: PathBuf,
    seen: u64,
    since: Instant,
    done: bool,
    skip: u64,
}

fn check(prop: &Prop, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let seed = num(args, "--seed", 1);
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    let dir = PathBuf::from(opt(args, "--dir").unwrap_or("/verif"));
    let jobs = num(args, "--jobs", 8).max(1);
    let mult = num(args, "--percent", 100);
    let n = num(args, "--cases", if tier == "thorough" { prop.thorough } else { prop.quick } * mult / 100);
    let work = dir.join("run").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).unwrap();
    let replays = dir.join("replays");
    let mut violations: Vec<(PathBuf, String)> = vec![];
    let mut error: Option<String> = None;
    let mut findings = 0;

    // listed findings, by the specific input that fails
    let listed: Vec<(String, String)> = std::fs::read_to_string(dir.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut i = l.splitn(3, ' ');
            let p = i.next()?.strip_prefix("property=")?;
            let key = i.next()?.strip_prefix("key=")?;
            (p == prop.id).then(|| (key.to_string(), i.next().unwrap_or("").to_string()))
        })
        .collect();
    let mut probes = 0;
    for pr in crate::probes::all().iter().filter(|p| p.property == prop.id) {
        probes += 1;
        let path = replays.join(format!("{}-{}.json", prop.id, pr.key));
        write_replay(&path, &Replay { property: prop.id.into(), message: String::new(), history: vec![], case: None, probe: Some(pr.key.into()), origin: "fixed input".into() });
        match sub_exec(&path) {
            (Verdict::Holds, _) => {
                let _ = std::fs::remove_file(&path);
            }
            (Verdict::Unknown(m), _) => error = Some(m),
            (v, m) => {
                if let Some((_, what)) = listed.iter().find(|(k, _)| k == pr.key) {
                    println!("KNOWN-FINDING: property={} {}", prop.id, what);
                    findings += 1;
                    let _ = std::fs::remove_file(&path);
                } else {
                    violations.push((path, format!("{v:?} {m}")));
                }
            }
        }
    }

    // saved cases
    let mut saved = 0u64;
    let mut files: Vec<_> = std::fs::read_dir(dir.join("regressions").join(prop.id)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        saved += 1;
        match sub_exec(&f) {
            (Verdict::Holds, _) => {}
            (Verdict::Unknown(m), _) => error = Some(format!("{}: {m}", f.display())),
            (Verdict::Fails, m) => violations.push((f, m)),
            (v, m) => violations.push((f, format!("{v:?} {m}"))),
        }
    }

    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut distinct = HashSet::new();
    if violations.is_empty() && error.is_none() {
        let spawn = |w: u64, from: u64, skip: u64, part: usize| -> W {
            let out = work.join(format!("w{w}.{part}"));
            let status = work.join(format!("s{w}.{part}"));
            let a = [
                "worker".to_string(), "--prop".into(), prop.id.into(), "--seed".into(), seed.to_string(), "--from".into(), from.to_string(),
                "--to".into(), n.to_string(), "--step".into(), jobs.to_string(), "--skip".into(), skip.to_string(),
                "--out".into(), out.to_str().unwrap().into(), "--status".into(), status.to_str().unwrap().into(),
            ];
            let mut c = limited(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>());
            let err = std::fs::File::create(work.join(format!("e{w}.{part}"))).unwrap();
            W { child: c.stdout(Stdio::null()).stderr(err).spawn().expect("spawn"), from, out, status, seen: u64::MAX, since: Instant::now(), done: false, skip }
        };
        let mut ws: Vec<W> = (0..jobs).map(|w| spawn(w, w, u64::MAX, 0)).collect();
        let mut part = 0;
        let mut bad: Option<(u64, String, bool)> = None; // index, message, by subprocess
        'outer: loop {
            let mut all = true;
            for k in 0..ws.len() {
                if ws[k].done {
                    continue;
                }
                all = false;
                let cur = std::fs::read(&ws[k].status).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(u64::MAX);
                if cur != ws[k].seen {
                    ws[k].seen = cur;
                    ws[k].since = Instant::now();
                }
                if let Ok(Some(st)) = ws[k].child.try_wait() {
                    if st.code() == Some(0) {
                        ws[k].done = true;
                        let w: WorkerOut = serde_json::from_slice(&std::fs::read(&ws[k].out).unwrap()).unwrap();
                        evaluations += w.evaluations;
                        nontrivial += w.nontrivial;
                        for (c, n) in w.counts {
                            *counts.entry(c).or_default() += n;
                        }
                        samples.extend(w.samples);
                        if let Some((i, m, _)) = w.fail {
                            bad = Some((i, m, false));
                            break 'outer;
                        }
                        continue;
                    }
                    // died: reproduce the case it was on, alone
                    let cur = std::fs::read(&ws[k].status).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
                    let Some(cur) = cur else {
                        error = Some(format!("worker died before its first case: {st}"));
                        break 'outer;
                    };
                    match alone(prop, seed, cur, &work) {
                        (Verdict::Fails, m) => bad = Some((cur, m, true)),
                        (Verdict::Dies(s), m) => bad = Some((cur, format!("the process dies ({s}): {m}"), true)),
                        (Verdict::Spins, _) => bad = Some((cur, "a call does not return".into(), true)),
                        (v, _) => match verdict(Some(st)) {
                            Verdict::Dies(s) => {
                                // not reproduced from the case alone, but only the code under test can do this
                                let e = std::fs::read(work.join(format!("e{}.{}", k, ws[k].out.extension().and_then(|e| e.to_str()).unwrap_or("0")))).unwrap_or_default();
                                bad = Some((cur, format!("the process dies ({s}): {}", tail(&String::from_utf8_lossy(&e))), true))
                            }
                            _ => error = Some(format!("worker ended with {st} at case {cur}; alone: {v:?}")),
                        },
                    }
                    break 'outer;
                }
                if ws[k].since.elapsed() > Duration::from_secs(90) && ws[k].seen != u64::MAX {
                    let cur = ws[k].seen;
                    let _ = ws[k].child.kill();
                    let _ = ws[k].child.wait();
                    match alone(prop, seed, cur, &work) {
                        (Verdict::Spins, _) => bad = Some((cur, "a call does not return".into(), true)),
                        (Verdict::Fails, m) => bad = Some((cur, m, true)),
                        (Verdict::Dies(s), m) => bad = Some((cur, format!("the process dies ({s}): {m}"), true)),
                        (Verdict::Holds, _) if ws[k].skip == u64::MAX => {
                            // merely slow: what this worker did so far is redone
                            part += 1;
                            let from = ws[k].from;
                            let _ = std::fs::remove_file(format!("{}.hashes", ws[k].out.display()));
                            ws[k] = spawn(k as u64, from, cur, part);
                            continue;
                        }
                        (v, m) => error = Some(format!("case {cur} gives no answer: {v:?} {m}")),
                    }
                    break 'outer;
                }
            }
            if all {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for w in ws.iter_mut() {
            if !w.done {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            if let Ok(b) = std::fs::read(format!("{}.hashes", w.out.display())) {
                distinct.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
        if let Some((i, m, sub)) = bad {
            let path = replays.join(format!("{}-s{}-{}.json", prop.id, seed, i));
            let try_shrink = |sub: bool| {
                let mut a = vec!["shrink", "--prop", prop.id];
                let (s, ix) = (seed.to_string(), i.to_string());
                a.extend(["--seed", &s, "--index", &ix, "--out", path.to_str().unwrap()]);
                if sub {
                    a.push("--sub");
                }
                let mut c = limited(&a).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
                wait_for(&mut c, Duration::from_secs(200)).map_or(false, |s| s.code() == Some(0)) && path.exists()
            };
            let _ = std::fs::remove_file(&path);
            let ok = (!sub && try_shrink(false)) || try_shrink(true);
            let mut msg = m.clone();
            if !ok {
                let strat = gen::strategy(prop);
                let case = gen::case(prop, &strat, seed, i);
                write_replay(&path, &Replay { property: prop.id.into(), message: m.clone(), history: vec![], case: Some(case), probe: None, origin: format!("seed {seed}, case {i}, not minimised") });
            } else if let Ok(r) = serde_json::from_slice::<Replay>(&std::fs::read(&path).unwrap_or_default()) {
                if !r.message.is_empty() {
                    msg = r.message;
                }
                for l in &r.history {
                    println!("  {l}");
                }
            }
            violations.push((path, msg));
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    let _ = nontrivial;
    samples.truncate(6);
    let ev = serde_json::json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations + saved,
            "distinct_nontrivial": distinct.len(),
            "rule": format!("each case is {}", prop.rule),
            "samples": samples,
            "saved_cases_replayed": saved,
            "fixed_inputs_probed": probes,
            "known_findings_seen": findings,
            "classes": counts,
        },
        "assumptions": crate::probes::assumptions(prop.id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    std::fs::write(dir.join("evidence").join(format!("{}.json", prop.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    for (p, m) in &violations {
        println!("{m}");
        println!("VIOLATION property={} replay={}", prop.id, p.display());
    }
    if !violations.is_empty() {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("no answer: {e}");
        return 2;
    }
    println!("{}: held on {} cases ({} distinct non-trivial), {:.1} s", prop.id, evaluations + saved, distinct.len(), t0.elapsed().as_secs_f64());
    0
}
fn alone(prop: &Prop, seed: u64, index: u64, work: &Path) -> (Verdict, String) {
    let strat = gen::strategy(prop);
    let case = gen::case(prop, &strat, seed, index);
    let path = work.join("alone.json");
    write_replay(&path, &Replay { property: prop.id.into(), message: String::new(), history: vec![], case: Some(case), probe: None, origin: String::new() });
    sub_exec(&path)
}
