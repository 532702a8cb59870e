//! Runs the shards of a check, classifies how each ended, shrinks a failure, and writes the
//! evidence and the replay file.

use crate::gen;
use crate::input::Input;
use crate::props::{self, Crash, Prop};
use crate::shrink;
use crate::worker::{self, EXIT_DOMAIN, EXIT_FAIL};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Pass(u64),
    OutOfDomain,
    Violation(String),
    /// not a memory error, and only those count
    Ignored(&'static str),
    /// the harness itself could not do its work
    Error(String),
}

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.into())
}

fn verif() -> PathBuf {
    PathBuf::from(env("P2T_VERIF", "/verif"))
}

fn binary(cfg: &str) -> PathBuf {
    PathBuf::from(env("P2T_BIN", "/verif/target")).join("bin").join(cfg)
}

fn tail(path: &Path) -> String {
    String::from_utf8_lossy(&fs::read(path).unwrap_or_default()).into_owned()
}

/// how a process of the harness ended, seen from outside
fn classify(p: &Prop, st: ExitStatus, stdout: &str, stderr: &str) -> End {
    let mem = p.crash == Crash::MemoryOnly;
    let line = |pat: &str| {
        stderr
            .lines()
            .find(|l| l.contains(pat))
            .unwrap_or("")
            .trim()
            .chars()
            .take(200)
            .collect::<String>()
    };
    let soft = |what: &'static str| {
        if mem {
            End::Ignored(what)
        } else {
            End::Violation(what.into())
        }
    };
    if stderr.contains("AddressSanitizer") {
        let l = line("ERROR: AddressSanitizer");
        if l.contains("stack-overflow") {
            return soft("exhausted its stack");
        }
        if l.contains("allocation-size-too-big") || l.contains("out-of-memory") || l.contains("out of memory")
            || stderr.contains("failed to allocate") || stderr.contains("AddressSanitizer: Out of memory")
        {
            return soft("exhausted the memory");
        }
        if !l.is_empty() && l.contains("AddressSanitizer:") {
            let at = stderr
                .lines()
                .filter(|l| l.contains("poly2tri") || l.contains("/repo/src"))
                .take(2)
                .map(|l| l.trim().to_string())
                .collect::<Vec<_>>()
                .join(" ");
            let l = l.split("AddressSanitizer:").nth(1).unwrap_or(&l).trim().to_string();
            let l = l.split(" on ").next().unwrap_or(&l).to_string();
            return End::Violation(format!("memory error: {l} {at}"));
        }
    }
    match (st.code(), st.signal()) {
        (Some(0), _) => {
            let d = stdout
                .lines()
                .find_map(|l| l.strip_prefix("OK "))
                .and_then(|h| u64::from_str_radix(h.trim(), 16).ok());
            End::Pass(d.unwrap_or(0))
        }
        (Some(EXIT_FAIL), _) => End::Violation(
            stdout
                .split_once("FAIL ")
                .map(|s| s.1.trim().to_string())
                .unwrap_or_else(|| "failed".into()),
        ),
        (Some(EXIT_DOMAIN), _) => End::OutOfDomain,
        (Some(77), _) => soft("does not terminate: exceeded its step allowance"),
        (None, Some(26)) if mem => End::Ignored("exceeded its processor time"),
        (None, Some(26)) => End::Error("exceeded its processor time".into()),
        (None, Some(6)) => {
            if stderr.contains("unsafe precondition") {
                End::Violation(format!("undefined behaviour: {}", line("unsafe precondition")))
            } else if stderr.contains("overflowed its stack") {
                soft("exhausted its stack")
            } else if stderr.contains("memory allocation") {
                soft("exhausted the memory")
            } else {
                soft("aborted")
            }
        }
        (None, Some(11)) | (None, Some(7)) | (None, Some(4)) => {
            if stderr.contains("overflowed its stack") {
                soft("exhausted its stack")
            } else {
                End::Violation(format!("killed by signal {}", st.signal().unwrap()))
            }
        }
        (c, s) => End::Error(format!(
            "ended with code {c:?} signal {s:?}: {}",
            stderr.chars().take(300).collect::<String>()
        )),
    }
}

fn command(cfg: &str) -> Command {
    let mut c = Command::new(binary(cfg));
    c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0");
    c.env("RUST_BACKTRACE", "0");
    c
}

/// judge one input in a process of its own
fn one(p: &Prop, cfg: &str, input: &Input) -> End {
    let mut ch = match command(cfg)
        .args(["one", p.id, cfg])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return End::Error(format!("{cfg}: {e}")),
    };
    let _ = ch.stdin.take().unwrap().write_all(input.write().as_bytes());
    match ch.wait_with_output() {
        Ok(o) => classify(
            p,
            o.status,
            &String::from_utf8_lossy(&o.stdout),
            &String::from_utf8_lossy(&o.stderr),
        ),
        Err(e) => End::Error(e.to_string()),
    }
}

struct Shard {
    cfg: &'static str,
    shard: u64,
    shards: u64,
    count: u64,
    child: Child,
    base: String,
}

struct Failure {
    cfg: String,
    message: String,
    input: Input,
    /// arguments of the worker that failed, to run its history again
    history: String,
}

fn spawn(
    p: &Prop,
    tier: &str,
    seed: u64,
    cfg: &'static str,
    s: (u64, u64),
    start: u64,
    count: u64,
    seconds: u64,
    dir: &str,
) -> Result<Shard, String> {
    let base = format!("{dir}/{cfg}-{}", s.0);
    let err = fs::File::create(format!("{base}.err")).map_err(|e| e.to_string())?;
    let child = command(cfg)
        .args(["worker", p.id, tier, &seed.to_string(), cfg])
        .args([s.0, s.1, start, count, seconds].map(|v| v.to_string()))
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .map_err(|e| format!("{}: {e}", binary(cfg).display()))?;
    Ok(Shard {
        cfg,
        shard: s.0,
        shards: s.1,
        count,
        child,
        base,
    })
}

fn progress(base: &str) -> Option<(i64, Input)> {
    let s = tail(Path::new(&format!("{base}.progress")));
    let s = s.split('\0').next()?.to_string();
    let (k, rest) = s.split_once('\n')?;
    Some((k.parse().ok()?, Input::read(rest).ok()?))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn stub(id: &str) -> Option<Prop> {
    worker::find(id)
}

pub fn drive(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = stub(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let dir = format!("{}/run/{id}-{}", env("P2T_BIN", "/verif/target"), std::process::id());
    if let Err(e) = fs::create_dir_all(&dir) {
        eprintln!("{dir}: {e}");
        return 2;
    }
    std::env::set_var("P2T_SCRATCH", &dir);
    std::env::set_var("VERIF_TIER", tier);
    let code = match run(&p, tier, seed, &dir, t0) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{id}: the check could not run: {e}");
            2
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

fn run(p: &Prop, tier: &str, seed: u64, dir: &str, t0: Instant) -> Result<i32, String> {
    let thorough = tier == "thorough";
    let total = if thorough { p.thorough } else { p.quick };
    let total = match env("P2T_SCALE", "").parse::<f64>() {
        Ok(f) => ((total as f64) * f) as u64,
        Err(_) => total,
    };
    // soft limit: stop generating; hard limit: give up without an answer
    let soft: u64 = env("P2T_SECONDS", if thorough { "600" } else { "400" }).parse().unwrap_or(400);
    let hard = Duration::from_secs(soft + 380);
    let differential = p.id == "C18";
    let mut live: Vec<Shard> = vec![];
    let mut planned: Vec<(&'static str, u64, u64, u64)> = vec![];
    let mut g = 0;
    let all: u64 = p.configs.iter().map(|c| c.1).sum();
    for (cfg, share) in p.configs {
        for s in 0..*share {
            if differential {
                let n = total / p.configs.len() as u64 / 2;
                if s < 2 {
                    planned.push((cfg, s, 2, n));
                } else {
                    continue;
                }
            } else {
                planned.push((cfg, g, all, total / all + 1));
            }
            g += 1;
        }
    }
    if differential {
        // every build sees the same cases
        planned.clear();
        for (cfg, _) in p.configs {
            for s in 0..2 {
                planned.push((cfg, s, 2, total / p.configs.len() as u64 / 2));
            }
        }
    }
    for (cfg, s, n, count) in &planned {
        live.push(spawn(p, tier, seed, cfg, (*s, *n), 0, *count, soft, dir)?);
    }
    let mut ignored: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fail: Option<Failure> = None;
    let mut bases: Vec<(String, &'static str)> = live.iter().map(|s| (s.base.clone(), s.cfg)).collect();
    bases.sort();
    let mut error = None;
    while !live.is_empty() && fail.is_none() {
        std::thread::sleep(Duration::from_millis(10));
        if t0.elapsed() > hard {
            error.get_or_insert(format!("no answer after {} s", hard.as_secs()));
            break;
        }
        let mut i = 0;
        while i < live.len() {
            let Some(st) = live[i].child.try_wait().map_err(|e| e.to_string())? else {
                i += 1;
                continue;
            };
            let s = live.swap_remove(i);
            let err = tail(Path::new(&format!("{}.err", s.base)));
            if st.code() == Some(0) {
                continue;
            }
            let at = progress(&s.base);
            let end = if st.code() == Some(EXIT_FAIL) {
                let m = tail(Path::new(&format!("{}.fail", s.base)));
                End::Violation(m.split_once('\n').map_or("", |x| x.1).trim().to_string())
            } else {
                classify(p, st, "", &err)
            };
            match (end, at) {
                (End::Violation(message), Some((k, input))) => {
                    fail = Some(Failure {
                        cfg: s.cfg.into(),
                        message,
                        input,
                        history: format!(
                            "{tier} {seed} {} {} {} {}",
                            s.cfg,
                            s.shard,
                            s.shards,
                            k + 1
                        ),
                    });
                }
                (End::Ignored(what), Some((k, _))) => {
                    *ignored.entry(what).or_default() += 1;
                    let next = (k + 1).max(0) as u64;
                    let left = soft.saturating_sub(t0.elapsed().as_secs()).max(1);
                    if next < s.count {
                        // an input before the first generated one: those are not tried again
                        let start = if k < 0 { 1 } else { next };
                        live.push(spawn(p, tier, seed, s.cfg, (s.shard, s.shards), start, s.count, left, dir)?);
                    }
                }
                (e, a) => {
                    // the other shards may still find a violation
                    error.get_or_insert(format!("{} shard {}: {e:?} {}", s.cfg, s.shard, a.is_some()));
                }
            }
            if fail.is_some() {
                break;
            }
        }
    }
    for mut s in live {
        let _ = s.child.kill();
        let _ = s.child.wait();
    }
    if let (Some(e), None) = (error, &fail) {
        return Err(e);
    }

    // what the shards did
    let mut evals: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let (mut worst, mut edges, mut guards, mut pool, mut mutated, mut early) = (0f64, 0u64, 0u64, 0u64, 0u64, 0);
    for (b, cfg) in &bases {
        for l in tail(Path::new(&format!("{b}.stats"))).lines() {
            let (k, v) = l.split_at(1);
            let v = v.trim();
            let mut w = v.split(' ');
            let mut num = || w.next().and_then(|t| t.parse::<u64>().ok()).unwrap_or(0);
            match k {
                "E" => *evals.entry(cfg).or_default() += num(),
                "T" => {
                    if let Some((n, t)) = v.split_once(' ') {
                        *tags.entry(t.into()).or_default() += n.parse::<u64>().unwrap_or(0);
                    }
                }
                "S" => samples.push(v.into()),
                "W" => worst = worst.max(v.parse().unwrap_or(0.0)),
                "C" => {
                    edges = edges.max(num());
                    guards = guards.max(num());
                }
                "P" => {
                    pool += num();
                    mutated += num();
                }
                "D" => early += num(),
                _ => {}
            }
        }
        for c in fs::read(format!("{b}.hashes")).unwrap_or_default().chunks_exact(8) {
            distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }

    let mut compared = 0u64;
    if differential && fail.is_none() {
        let (n, f) = compare(p, tier, seed, dir)?;
        compared = n;
        fail = f;
    }

    let violations = fail.is_some() as u32;
    let mut replay = String::new();
    if let Some(f) = fail {
        replay = report(p, f, seed);
    }
    let total_evals: u64 = evals.values().sum();
    // sparse sampling can miss: then the regression inputs and the first case stand in
    if samples.is_empty() {
        let mut rng = worker::case_rng(seed, p.id, 0);
        samples.push(worker::fresh(p, &mut rng, thorough).0.one_line().chars().take(600).collect());
    }
    samples.truncate(8);
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")
    };
    let stringy = |m: &BTreeMap<&'static str, u64>| -> BTreeMap<String, u64> {
        m.iter().map(|(k, v)| (k.to_string(), *v)).collect()
    };
    let mut extra = String::new();
    if !ignored.is_empty() {
        extra += &format!(",\n    \"ended_without_memory_error\": {{{}}}", map(&stringy(&ignored)));
    }
    if p.guided {
        extra += &format!(
            ",\n    \"guidance\": {{\"edges_reached_by_best_shard\": {edges}, \"edges_instrumented\": {guards}, \"pool\": {pool}, \"mutated_cases\": {mutated}}}"
        );
    }
    if differential {
        extra += &format!(",\n    \"cases_compared_between_all_builds\": {compared}");
    }
    if early > 0 {
        extra += &format!(",\n    \"shards_stopped_by_the_time_limit\": {early}");
    }
    let json = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {total_evals},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"evaluations_per_build\": {{{}}},\n    \"classes\": {{{}}},\n    \"worst_share_of_step_allowance\": {worst:.6}{extra}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.1},\n  \"violations\": {violations}\n}}\n",
        esc(p.id),
        esc(tier),
        distinct.len(),
        esc(&props::rule(p)),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        map(&stringy(&evals)),
        map(&tags),
        props::assumptions(p).iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
    );
    let ev = verif().join("evidence");
    fs::create_dir_all(&ev).map_err(|e| e.to_string())?;
    fs::write(ev.join(format!("{}.json", p.id)), json).map_err(|e| e.to_string())?;
    if violations > 0 {
        println!("VIOLATION property={} replay={replay}", p.id);
        return Ok(1);
    }
    println!(
        "{}: held on {total_evals} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    Ok(0)
}

/// the set of triangles must agree between all builds, their list between builds of one float type
fn agree(a: &str, x: u64, b: &str, y: u64) -> bool {
    x >> 32 == y >> 32 && (a.contains("64") != b.contains("64") || x == y)
}

/// C18: the digests of all builds
fn compare(p: &Prop, tier: &str, seed: u64, dir: &str) -> Result<(u64, Option<Failure>), String> {
    let mut by: HashMap<u64, Vec<(&'static str, u64, u64)>> = HashMap::new();
    for (cfg, _) in p.configs {
        for s in 0..2 {
            let b = fs::read(format!("{dir}/{cfg}-{s}.stream")).unwrap_or_default();
            for c in b.chunks_exact(24) {
                let v = |i: usize| u64::from_le_bytes(c[8 * i..8 * i + 8].try_into().unwrap());
                by.entry(v(0)).or_default().push((cfg, v(1), v(2)));
            }
        }
    }
    let mut keys: Vec<u64> = by.keys().copied().collect();
    keys.sort_unstable();
    let mut n = 0;
    for k in keys {
        let v = &by[&k];
        if v.iter().any(|x| x.1 != v[0].1) {
            return Err(format!("case {k} is not the same input in every build"));
        }
        if v.len() == p.configs.len() {
            n += 1;
        }
        let clash = (0..v.len())
            .flat_map(|i| (0..i).map(move |j| (j, i)))
            .find(|(j, i)| !agree(v[*j].0, v[*j].2, v[*i].0, v[*i].2));
        if let Some((a, o)) = clash.map(|(j, i)| (v[j], v[i])) {
            gen::FORCE_F32.store(true, std::sync::atomic::Ordering::Relaxed);
            let mut rng = worker::case_rng(seed, p.id, k);
            let (input, _) = worker::fresh(p, &mut rng, tier == "thorough");
            return Ok((
                n,
                Some(Failure {
                    cfg: format!("{}+{}", a.0, o.0),
                    message: "two builds disagree".into(),
                    input,
                    history: String::new(),
                }),
            ));
        }
    }
    Ok((n, None))
}

/// one input under a build, or a pair of builds that must agree
fn verdict(p: &Prop, cfg: &str, input: &Input) -> End {
    match cfg.split_once('+') {
        None => one(p, cfg, input),
        Some((a, b)) => match (one(p, a, input), one(p, b, input)) {
            (End::Pass(x), End::Pass(y)) if agree(a, x, b, y) => End::Pass(x),
            (End::Pass(_), End::Pass(_)) => {
                End::Violation(format!("the builds {a} and {b} triangulate this input differently"))
            }
            (End::Pass(_), e) | (e, _) => e,
        },
    }
}

/// shrinks, writes the replay file, returns its path
fn report(p: &Prop, f: Failure, seed: u64) -> String {
    let t = Instant::now();
    let limit = Duration::from_secs(100);
    let bad = |i: &Input| matches!(verdict(p, &f.cfg, i), End::Violation(_));
    let mut input = f.input.clone();
    let alone = bad(&input);
    let mut tried = 0;
    if alone {
        match &f.input {
            Input::Geo(c) => {
                let ok = |d: &crate::case::Case| props::domain(p, &Input::Geo(d.clone())).is_some();
                let (c, n) = shrink::shrink(c.clone(), 3000, ok, |d| {
                    t.elapsed() < limit && bad(&Input::Geo(d.clone()))
                });
                input = Input::Geo(c);
                tried = n;
            }
            Input::Text(b) => {
                let mut cur = b.clone();
                let mut k = cur.len();
                while k > 0 {
                    let mut i = 0;
                    while i < cur.len() && t.elapsed() < limit {
                        let mut d = cur[..i].to_vec();
                        d.extend_from_slice(&cur[(i + k).min(cur.len())..]);
                        tried += 1;
                        if bad(&Input::Text(d.clone())) {
                            cur = d;
                        } else {
                            i += k;
                        }
                    }
                    k /= 2;
                }
                input = Input::Text(cur);
            }
            Input::Big { kind, n, seed } => {
                // the smallest failing member found by halving
                let (mut lo, mut hi) = (3usize, *n);
                while lo + lo / 8 + 1 < hi && t.elapsed() < limit {
                    let mid = lo + (hi - lo) / 2;
                    tried += 1;
                    if bad(&Input::Big { kind: kind.clone(), n: mid, seed: *seed }) {
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
                input = Input::Big { kind: kind.clone(), n: hi, seed: *seed };
                // small enough to be written out and simplified point by point
                if hi <= 1500 && p.domain != props::Domain::Free {
                    let c = gen::big(kind, hi, *seed);
                    if bad(&Input::Geo(c.clone())) {
                        let ok = |d: &crate::case::Case| props::domain(p, &Input::Geo(d.clone())).is_some();
                        let (c, n) = shrink::shrink(c, 3000, ok, |d| {
                            t.elapsed() < limit && bad(&Input::Geo(d.clone()))
                        });
                        tried += n;
                        input = Input::Geo(c);
                    }
                }
            }
        }
    }
    let message = match verdict(p, &f.cfg, &input) {
        End::Violation(m) => m,
        _ => f.message.clone(),
    };
    let d = verif().join("replays");
    let _ = fs::create_dir_all(&d);
    let path = d.join(format!("{}-{}.replay", p.id, seed));
    let mut s = format!("PROPERTY {}\nCONFIG {}\n", p.id, f.cfg);
    if !alone {
        s += &format!("HISTORY {}\n", f.history);
    }
    s += &format!("MESSAGE {}\n", message.replace('\n', " "));
    s += &format!("# how to run it again: ./check.sh replay {}\n", path.display());
    s += &format!("# shrunk from {} to {} points in {tried} steps\n", f.input.size(), input.size());
    s += &input.write();
    let _ = fs::write(&path, s);
    eprintln!("{}: {message}\n  build {}: {}", p.id, f.cfg, input.one_line());
    path.display().to_string()
}

pub fn replay(file: &str) -> i32 {
    let s = match fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|v| v.trim().to_string());
    let (Some(id), Some(cfg)) = (field("PROPERTY "), field("CONFIG ")) else {
        eprintln!("{file}: no PROPERTY or CONFIG line");
        return 2;
    };
    let Some(p) = stub(&id) else {
        eprintln!("no property {id} in this build");
        return 2;
    };
    if let Some(h) = field("HISTORY ") {
        // the failure needs the cases before it in the same process
        let dir = format!("{}/run/replay-{}", env("P2T_BIN", "/verif/target"), std::process::id());
        let _ = fs::create_dir_all(&dir);
        let a: Vec<&str> = h.split(' ').collect();
        let st = command(a[2])
            .args(["worker", &id, a[0], a[1], a[2], a[3], a[4], "0", a[5], "0", &dir])
            .stderr(Stdio::null())
            .status();
        let m = tail(Path::new(&format!("{dir}/{}-{}.fail", a[2], a[3])));
        let _ = fs::remove_dir_all(&dir);
        return match st {
            Ok(s) if s.code() == Some(0) => {
                println!("{id}: held");
                0
            }
            _ => {
                println!("VIOLATION property={id} replay={file}\n{m}");
                1
            }
        };
    }
    let input = match Input::read(&s) {
        Ok(i) => i,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    match verdict(&p, &cfg, &input) {
        End::Violation(m) => {
            println!("VIOLATION property={id} replay={file}\n{m}");
            1
        }
        e => {
            println!("{id}: {e:?}");
            0
        }
    }
}
