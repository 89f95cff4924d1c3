//! rtmon: runtime monitors for async_zip. See /verif/DESIGN.md.
mod alloc;
mod chaos;
mod deflate64;
mod exec;
mod gen;
mod mutate;
mod props;
mod report;
mod rng;
mod sparse;
mod view;
mod zipref;

use report::{Case, Infra, Prop, Stats, Tier, Violated};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[cfg(not(any(miri, no_tracking)))]
#[global_allocator]
static GLOBAL: alloc::Tracking = alloc::Tracking;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

/// A directory of this run for scratch files; removed by the supervisor.
pub fn scratch() -> &'static Path {
    SCRATCH.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("rtmon-scratch-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        d
    })
}

/// Identities of the recorded, unrepaired defects of a property.
pub fn known_findings(prop: &str) -> &'static [String] {
    static ALL: OnceLock<std::collections::HashMap<String, Vec<String>>> = OnceLock::new();
    static EMPTY: Vec<String> = Vec::new();
    ALL.get_or_init(|| {
        let mut m: std::collections::HashMap<String, Vec<String>> = Default::default();
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in t.lines() {
                let mut w = l.split_whitespace();
                if w.next() == Some("finding:") {
                    let p = w.next().and_then(|x| x.strip_prefix("property="));
                    let id = w.next().and_then(|x| x.strip_prefix("id="));
                    if let (Some(p), Some(id)) = (p, id) {
                        m.entry(p.to_string()).or_default().push(id.to_string());
                    }
                }
            }
        }
        m
    })
    .get(prop)
    .unwrap_or(&EMPTY)
}

/// Runs one case, turning panics into verdicts. Err(Err(_)) is trouble of the sandbox.
fn run_case(p: &Prop, case: &mut Case) -> Result<(), Result<String, String>> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    exec::unasked_polls(0);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(case))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(Ok(m)),
        Err(payload) => {
            if let Some(v) = payload.downcast_ref::<Violated>() {
                Err(Ok(v.0.clone()))
            } else if let Some(v) = payload.downcast_ref::<Infra>() {
                Err(Err(v.0.clone()))
            } else {
                Err(Ok(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))))
            }
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(payload)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("{m} at {loc}");
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

struct Args {
    prop: &'static Prop,
    tier: Tier,
    seed: u64,
    only: Option<u64>,
    from: u64,
    cases: Option<u64>,
    out: PathBuf,
    verbose: bool,
}

fn parse_args(a: &[String]) -> Args {
    let id = a.first().cloned().unwrap_or_default();
    let prop = props::all().iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let mut r = Args {
        prop,
        tier: Tier::Quick,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only: None,
        from: 0,
        cases: None,
        out: PathBuf::new(),
        verbose: false,
    };
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--tier" => r.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => r.seed = v.parse().expect("seed"),
            "--only" => r.only = Some(v.parse().expect("only")),
            "--from" => r.from = v.parse().expect("from"),
            "--cases" => r.cases = Some(v.parse().expect("cases")),
            "--out" => r.out = v.into(),
            "-v" => {
                r.verbose = true;
                i += 1;
                continue;
            }
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    r
}

/// The worker process: runs cases on several threads; journals the case each thread is in.
fn worker(a: Args) -> i32 {
    install_hook();
    let p = a.prop;
    let total = a.only.map(|_| 1).or(a.cases).unwrap_or_else(|| (p.cases)(a.tier));
    let deadline = Instant::now() + Duration::from_secs((p.budget)(a.tier));
    let threads = if a.only.is_some() { 1 } else { p.threads.min(total as usize).max(1) };
    let _ = SCRATCH.set(a.out.clone());
    let journal = std::fs::File::create(a.out.join("journal")).expect("journal");
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let merged = Mutex::new(Stats::default());
    let violations: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let infra: Mutex<Vec<String>> = Mutex::new(vec![]);
    let ran = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (journal, next, stop, merged, violations, infra, ran, a) =
                (&journal, &next, &stop, &merged, &violations, &infra, &ran, &a);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Stats::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                            break;
                        }
                        let n = next.fetch_add(1, Ordering::Relaxed);
                        if n >= total {
                            break;
                        }
                        let idx = a.only.unwrap_or(a.from + n);
                        let mut slot = [0u8; 16];
                        slot[..8].copy_from_slice(&(idx + 1).to_le_bytes());
                        slot[8..].copy_from_slice(&(start.elapsed().as_millis() as u64).to_le_bytes());
                        let _ = journal.write_at(&slot, t as u64 * 16);
                        let mut case = Case::new(p.id, a.tier, a.seed, idx);
                        case.verbose = a.verbose;
                        let r = run_case(p, &mut case);
                        ran.fetch_add(1, Ordering::Relaxed);
                        local.merge(std::mem::take(&mut case.stats));
                        match r {
                            Ok(()) => {}
                            Err(Ok(m)) => {
                                let mut v = violations.lock().unwrap();
                                v.push((idx, m));
                                if v.len() >= 5 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Err(Err(m)) => {
                                infra.lock().unwrap().push(m);
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let _ = journal.write_at(&[0u8; 16], t as u64 * 16);
                    merged.lock().unwrap().merge(local);
                })
                .expect("spawn");
        }
    });
    let st = merged.into_inner().unwrap();
    let vs = violations.into_inner().unwrap();
    let infra = infra.into_inner().unwrap();
    let j = json!({
        "ran": ran.load(Ordering::Relaxed),
        "planned": total,
        "evaluations": st.evaluations,
        "distinct": st.distinct.len(),
        "counters": st.counters,
        "maxima": st.maxima,
        "samples": st.samples.iter().map(|(i, s)| json!({"case": i, "what": s})).collect::<Vec<_>>(),
        "findings": st.findings,
        "violations": vs.iter().map(|(i, m)| json!({"case": i, "message": m})).collect::<Vec<_>>(),
        "infra": infra,
    });
    std::fs::write(a.out.join("result.json"), serde_json::to_vec(&j).unwrap()).expect("result");
    0
}

fn read_slots(out: &Path) -> Vec<(u64, u64)> {
    let b = std::fs::read(out.join("journal")).unwrap_or_default();
    b.chunks_exact(16)
        .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        .filter(|(i, _)| *i != 0)
        .map(|(i, t)| (i - 1, t))
        .collect()
}

enum End {
    Done(Value),
    Signal(i32, String),
    Stuck(Vec<u64>),
    Other(String),
}

/// Seconds one case may take; cases normally take milliseconds (C14: seconds).
fn case_limit(p: &Prop, t: Tier) -> u64 {
    match (p.id, t) {
        ("C14", Tier::Quick) => 150,
        ("C14", Tier::Thorough) => 1500,
        (_, Tier::Quick) => 60,
        (_, Tier::Thorough) => 300,
    }
}

fn spawn(args: &[String], out: &Path, limit: u64, single: bool) -> End {
    use std::os::unix::process::CommandExt;
    let _ = std::fs::remove_file(out.join("result.json"));
    let _ = std::fs::remove_file(out.join("journal"));
    let err = std::fs::File::create(out.join("stderr")).expect("stderr file");
    let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
    c.args(args).stderr(err).stdout(std::process::Stdio::null()).stdin(std::process::Stdio::null());
    let sanitized = std::env::var("RTMON_SANITIZED").is_ok();
    unsafe {
        c.pre_exec(move || {
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            if !sanitized {
                let l = libc::rlimit { rlim_cur: 46 << 30, rlim_max: 46 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
            }
            if single {
                let l = libc::rlimit { rlim_cur: limit, rlim_max: limit + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
            Ok(())
        });
    }
    let t0 = Instant::now();
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return End::Other(format!("cannot start worker: {e}")),
    };
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                if let Some(sig) = st.signal() {
                    let e = std::fs::read_to_string(out.join("stderr")).unwrap_or_default();
                    let head: String = e.lines().rev().take(30).collect::<Vec<_>>().join(" | ").chars().take(1500).collect();
                    return End::Signal(sig, head);
                }
                let code = st.code().unwrap_or(-1);
                if code == 0 {
                    if let Some(v) = std::fs::read(out.join("result.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                        return End::Done(v);
                    }
                }
                let e = std::fs::read_to_string(out.join("stderr")).unwrap_or_default();
                let head: String = e.chars().take(3000).collect();
                // Sanitizer reports end the process with a code of their own.
                if sanitized && (e.contains("Sanitizer") || code == 66) {
                    return End::Signal(1000 + code, head);
                }
                return End::Other(format!("worker exit code {code}: {head}"));
            }
            Ok(None) => {}
            Err(e) => return End::Other(format!("wait: {e}")),
        }
        let now = t0.elapsed().as_millis() as u64;
        let stuck: Vec<u64> = read_slots(out).into_iter().filter(|(_, t)| now.saturating_sub(*t) > limit * 1000).map(|(i, _)| i).collect();
        if !stuck.is_empty() && !single {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Stuck(stuck);
        }
        if single && t0.elapsed().as_secs() > 2 * limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Stuck(vec![]);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// The supervising parent: decides, writes evidence, prints the verdict.
fn supervise(a: Args) -> i32 {
    let p = a.prop;
    let t0 = Instant::now();
    let tier = a.tier.pick("quick", "thorough");
    let evdir = verif_dir().join("evidence");
    let rpdir = evdir.join("replay");
    std::fs::create_dir_all(&rpdir).expect("evidence dir");
    if let Ok(d) = std::fs::read_dir(&rpdir) {
        for f in d.flatten() {
            if f.file_name().to_string_lossy().starts_with(p.id) {
                let _ = std::fs::remove_file(f.path());
            }
        }
    }
    let tmp = std::env::temp_dir().join(format!("rtmon-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch dir");
    let base = |extra: &[String]| -> Vec<String> {
        let mut v: Vec<String> = vec!["worker".into(), p.id.into(), "--tier".into(), tier.into(), "--seed".into(), a.seed.to_string(), "--out".into(), tmp.display().to_string()];
        if let Some(c) = a.cases {
            v.extend(["--cases".into(), c.to_string()]);
        }
        v.extend(extra.iter().cloned());
        v
    };
    let mut violations: Vec<(u64, String)> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut result = Value::Null;
    let from = vec!["--from".to_string(), a.from.to_string()];
    let limit = case_limit(p, a.tier) * if std::env::var("RTMON_SANITIZED").is_ok() { 8 } else { 1 };
    match spawn(&base(&from), &tmp, limit, false) {
        End::Done(v) => result = v,
        End::Signal(sig, msg) => {
            let suspects: Vec<u64> = read_slots(&tmp).into_iter().map(|(i, _)| i).collect();
            eprintln!("worker ended by signal {sig} ({msg}); re-running suspects {suspects:?} one at a time");
            for i in suspects {
                if !violations.is_empty() {
                    break;
                }
                match spawn(&base(&["--only".into(), i.to_string()]), &tmp, limit, true) {
                    End::Done(v) => {
                        for x in v["violations"].as_array().into_iter().flatten() {
                            violations.push((i, x["message"].as_str().unwrap_or("").into()));
                        }
                    }
                    End::Signal(s, m) if s != libc::SIGKILL => violations.push((i, format!("the process was ended by signal {s}: {m}"))),
                    End::Signal(s, m) => inconclusive.push(format!("case {i}: signal {s} {m}")),
                    End::Stuck(_) => violations.push((i, format!("hang: the case did not end within {} s, run alone", 2 * limit))),
                    End::Other(m) => inconclusive.push(format!("case {i}: {m}")),
                }
            }
            if violations.is_empty() {
                if sig >= 1000 {
                    violations.push((0, format!("sanitizer report: {msg}")));
                } else {
                    inconclusive.push(format!("worker ended by signal {sig}, not reproduced by a single case: {msg}"));
                }
            }
        }
        End::Stuck(suspects) => {
            eprintln!("cases {suspects:?} exceed {limit} s; re-running them one at a time");
            for i in suspects {
                if !violations.is_empty() {
                    break;
                }
                match spawn(&base(&["--only".into(), i.to_string()]), &tmp, limit, true) {
                    End::Signal(s, _) if s == libc::SIGXCPU || s == libc::SIGKILL => {
                        violations.push((i, format!("hang: the case used {limit} s of CPU time without ending")))
                    }
                    End::Signal(s, m) => violations.push((i, format!("the process was ended by signal {s}: {m}"))),
                    End::Done(v) => {
                        for x in v["violations"].as_array().into_iter().flatten() {
                            violations.push((i, x["message"].as_str().unwrap_or("").into()));
                        }
                    }
                    End::Stuck(_) => violations.push((i, format!("hang: the case did not end within {} s, run alone", 2 * limit))),
                    End::Other(m) => inconclusive.push(format!("case {i}: {m}")),
                }
            }
            if violations.is_empty() {
                inconclusive.push("a case exceeded the time limit once but not when re-run".into());
            }
        }
        End::Other(m) => inconclusive.push(m),
    }
    let _ = std::fs::remove_dir_all(&tmp);
    for x in result["violations"].as_array().into_iter().flatten() {
        violations.push((x["case"].as_u64().unwrap_or(0), x["message"].as_str().unwrap_or("").into()));
    }
    for x in result["infra"].as_array().into_iter().flatten() {
        inconclusive.push(x.as_str().unwrap_or("").to_string());
    }
    if violations.is_empty() && inconclusive.is_empty() && a.cases.is_none() {
        for k in p.must_observe {
            if result["counters"][k].as_u64().unwrap_or(0) == 0 {
                inconclusive.push(format!("the monitors observed no '{k}'"));
            }
        }
    }
    // Evidence.
    let mut coverage = json!({
        "evaluations": result["evaluations"].as_u64().unwrap_or(0),
        "distinct_nontrivial": result["distinct"].as_u64().unwrap_or(0),
        "rule": p.rule,
        "samples": result["samples"].as_array().cloned().unwrap_or_default(),
        "cases_run": result["ran"].as_u64().unwrap_or(0),
        "cases_planned": result["planned"].as_u64().unwrap_or(0),
        "observed": result["counters"],
        "maxima": result["maxima"],
    });
    if p.exhaustive && result["ran"] == result["planned"] {
        coverage["exhaustive"] = json!(true);
    }
    if !inconclusive.is_empty() {
        coverage["inconclusive"] = json!(inconclusive);
    }
    if let Ok(x) = std::env::var("RTMON_BUILD") {
        coverage["build"] = json!(x);
    }
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": a.seed,
        "level": p.level,
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let suffix = std::env::var("RTMON_EVIDENCE_SUFFIX").unwrap_or_default();
    std::fs::write(evdir.join(format!("{}{}.json", p.id, suffix)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    if let Some(m) = result["findings"].as_object() {
        for (id, what) in m {
            println!("KNOWN-FINDING: property={} {} {}", p.id, id, what.as_str().unwrap_or(""));
        }
    }
    println!(
        "{} {} seed={} cases={}/{} evaluations={} distinct={} wall={:.1}s observed={} max={}",
        p.id, tier, a.seed, result["ran"], result["planned"], result["evaluations"], result["distinct"], t0.elapsed().as_secs_f64(), result["counters"], result["maxima"]
    );
    if !violations.is_empty() {
        violations.sort();
        violations.dedup();
        for (i, m) in violations.iter().take(5) {
            let f = rpdir.join(format!("{}-{}-{}{}.json", p.id, a.seed, i, suffix));
            let j = json!({"property": p.id, "build": std::env::var("RTMON_BUILD").unwrap_or_default(), "tier": tier, "seed": a.seed, "case": i, "message": m,
                "replay": format!("bash /verif/check.sh replay {}", f.display())});
            let _ = std::fs::write(&f, serde_json::to_vec_pretty(&j).unwrap());
            println!("  case {i}: {}", m.chars().take(1200).collect::<String>());
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        for m in &inconclusive {
            println!("INCONCLUSIVE {}: {}", p.id, m);
        }
        return 2;
    }
    0
}

fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let code = match argv.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => supervise(parse_args(&argv[1..])),
        Some("worker") => worker(parse_args(&argv[1..])),
        // A single case in this process, with its verdict: for debugging and replay.
        Some("one") => {
            install_hook();
            let a = parse_args(&argv[1..]);
            let mut case = Case::new(a.prop.id, a.tier, a.seed, a.only.expect("--only"));
            case.verbose = true;
            let r = run_case(a.prop, &mut case);
            for (_, s) in &case.stats.samples {
                println!("sample: {s}");
            }
            println!("{:?} {:?}", case.stats.counters, case.stats.findings);
            if let Some(d) = SCRATCH.get() {
                let _ = std::fs::remove_dir_all(d);
            }
            match r {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(Ok(m)) => {
                    println!("violated: {m}");
                    1
                }
                Err(Err(m)) => {
                    println!("inconclusive: {m}");
                    2
                }
            }
        }
        Some("replay") => {
            let f = argv.get(1).expect("file");
            let j: Value = serde_json::from_slice(&std::fs::read(f).expect("read")).expect("json");
            let args = vec![
                j["property"].as_str().unwrap().to_string(),
                "--tier".into(),
                j["tier"].as_str().unwrap().to_string(),
                "--seed".into(),
                j["seed"].to_string(),
                "--cases".into(),
                "1".into(),
                "--from".into(),
                j["case"].to_string(),
            ];
            supervise(parse_args(&args))
        }
        _ => {
            eprintln!("usage: rtmon list | run Cxx [--tier quick|thorough] [--seed N] | one Cxx --only IDX | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
