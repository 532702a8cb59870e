//! One shard of a check: generates, filters by the exact domain test, runs the oracle.

use crate::case::Loc;
use crate::cov;
use crate::gen;
use crate::input::Input;
use crate::props::{self, Crash, Ctx, Prop};
use crate::rng::{hash_str, splitmix, Rng};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

pub const EXIT_FAIL: i32 = 10;
pub const EXIT_DOMAIN: i32 = 3;

static PANIC: Mutex<String> = Mutex::new(String::new());

#[repr(C)]
struct Limit {
    cur: u64,
    max: u64,
}
#[repr(C)]
struct Time {
    sec: i64,
    usec: i64,
}
#[repr(C)]
struct Timer {
    interval: Time,
    value: Time,
}
extern "C" {
    fn setrlimit(r: i32, l: *const Limit) -> i32;
    fn setitimer(w: i32, new: *const Timer, old: *mut Timer) -> i32;
}
const RLIMIT_AS: i32 = 9;
const RLIMIT_CORE: i32 = 4;
const ITIMER_VIRTUAL: i32 = 1;

pub fn setup(cfg: &str) {
    unsafe {
        setrlimit(RLIMIT_CORE, &Limit { cur: 0, max: 0 });
        if !cfg.starts_with("asan") {
            let g = 3u64 << 30;
            setrlimit(RLIMIT_AS, &Limit { cur: g, max: g });
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "a value".into()
        };
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        // the text of a panic that cannot unwind must reach the driver
        if m.starts_with("unsafe precondition") || m.contains("cannot unwind") {
            eprintln!("{m} at {at}");
        }
        let m: String = m.chars().take(300).collect();
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{m} ({at})");
    }));
}

/// processor time for one case, after which the process ends with SIGVTALRM
fn cpu_limit(sec: i64) {
    unsafe {
        setitimer(
            ITIMER_VIRTUAL,
            &Timer {
                interval: Time { sec: 0, usec: 0 },
                value: Time { sec, usec: 0 },
            },
            std::ptr::null_mut(),
        );
    }
}

/// what certainly runs within the limit on processor time, so that a case that does not terminate
/// ends by its allowance
fn most(p: &Prop) -> u64 {
    match p.id {
        "C10" | "C12" | "C16" | "C30" => 200_000_000_000,
        "C08" | "C09" | "C11" | "C19" | "C29" => 120_000_000_000,
        _ if cfg!(debug_assertions) => 30_000_000_000,
        _ => 60_000_000_000,
    }
}

pub fn fuel(p: &Prop, input: &Input) -> u64 {
    let n = input.size() as u64;
    if let Input::Big { kind, .. } = input {
        // sizes are chosen so that each family takes seconds
        let q = match kind.as_str() {
            "hull" => 20_000,
            "hull+out" => 60_000,
            "bowl" | "dome" | "comb" | "parabola" | "parabola_down" => 2_000,
            _ if cfg!(debug_assertions) || kind.ends_with("+out") => 20_000,
            _ => 4,
        };
        return ((300_000_000 + 600_000 * n + 3 * q * n * n) * p.fuel).min(most(p));
    }
    // at least fifteen times what any case was seen to take
    let f = 60_000_000 + 600_000 * n + 6_000 * n * n;
    match p.crash {
        Crash::Violation => (f * p.fuel).min(most(p)),
        Crash::MemoryOnly => 60_000_000,
    }
}

/// runs the oracle on one input of the domain
pub fn judge(p: &Prop, input: &Input, x: &mut Ctx) -> Result<(), String> {
    let large = matches!(input, Input::Big { .. });
    cpu_limit(match p.crash {
        _ if large => 300,
        Crash::MemoryOnly => 10,
        _ => 200,
    });
    cov::reset(fuel(p, input));
    if large {
        x.tags.push("large family");
    }
    let whole;
    let input = match input {
        Input::Big { kind, n, seed } if p.id != "C19" && p.id != "C29" => {
            whole = Input::Geo(gen::big(kind, *n, *seed));
            &whole
        }
        i => i,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (p.check)(input, x)));
    cov::unlimited();
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            match p.crash {
                Crash::Violation => Err(format!("panicked: {m}")),
                Crash::MemoryOnly => {
                    x.tags.push("panicked");
                    Ok(())
                }
            }
        }
    }
}

pub fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

pub fn case_rng(seed: u64, prop: &str, idx: u64) -> Rng {
    let mut s = seed ^ hash_str(prop);
    let a = splitmix(&mut s);
    let mut s = a ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    Rng::new(splitmix(&mut s))
}

/// a fresh member of the property's domain
pub fn fresh(p: &Prop, rng: &mut Rng, thorough: bool) -> (Input, Vec<Loc>) {
    for _ in 0..200 {
        let i = if p.big.0 > 0 && rng.chance(p.big.0 as usize, p.quick as usize) {
            let out = p.id == "C07" || (p.domain != props::Domain::Inside && rng.chance(1, 4));
            gen::big_mix(rng, p.big.1, out)
        } else {
            (p.gen)(rng, thorough)
        };
        if let Some(l) = props::domain(p, &i) {
            return (i, l);
        }
    }
    panic!("the generator of {} makes no admissible input", p.id);
}

/// inputs committed with the harness, tried before any generated one
fn regress() -> Vec<Input> {
    let Ok(d) = std::env::var("P2T_REGRESS") else {
        return vec![];
    };
    let mut f: Vec<PathBuf> = fs::read_dir(d)
        .map(|r| r.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    f.sort();
    f.iter()
        .filter(|f| f.extension().map_or(false, |e| e == "case"))
        .filter_map(|f| Input::read(&fs::read_to_string(f).ok()?).ok())
        .collect()
}

/// coverage feedback: inputs that reached a new (edge, order of magnitude) pair
struct Pool {
    seen: Vec<u8>,
    cases: Vec<crate::case::Case>,
}

impl Pool {
    fn new() -> Pool {
        Pool {
            seen: vec![0; cov::MAP],
            cases: vec![],
        }
    }
    /// what an earlier process of this shard, ended by one of its cases, had found
    fn load(&mut self, file: &str) {
        for t in fs::read_to_string(format!("{file}.pool")).unwrap_or_default().split('\0') {
            if let Ok(Input::Geo(c)) = Input::read(t) {
                self.cases.push(c);
            }
        }
        if let Ok(s) = fs::read(format!("{file}.seen")) {
            if s.len() == self.seen.len() {
                self.seen = s;
            }
        }
    }
    fn offer(&mut self, i: &Input) -> bool {
        let n = (cov::guards() as usize + 1).min(cov::MAP);
        let h = cov::hits();
        let mut new = false;
        for k in 0..n {
            if h[k] != 0 {
                let b = 1u8 << (7 - h[k].leading_zeros());
                if self.seen[k] & b == 0 {
                    self.seen[k] |= b;
                    new = true;
                }
            }
        }
        if let (true, Input::Geo(c)) = (new, i) {
            if c.len() <= 200 {
                self.cases.push(c.clone());
                return true;
            }
        }
        false
    }
    fn edges(&self) -> usize {
        self.seen.iter().filter(|b| **b != 0).count()
    }
}

/// worker PROP TIER SEED CFG SHARD SHARDS START COUNT SECONDS DIR
pub fn worker(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (id, thorough, seed, cfg) = (&a[0], a[1] == "thorough", n(2), &a[3]);
    let (shard, shards, start, count, seconds) = (n(4), n(5), n(6), n(7), n(8));
    let base = format!("{}/{cfg}-{shard}", a[9]);
    let p = find(id).expect("property");
    setup(cfg);
    if p.id == "C18" {
        gen::FORCE_F32.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let progress = fs::File::create(format!("{base}.progress")).unwrap();
    let append = |ext: &str| {
        fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(format!("{base}.{ext}"))
            .unwrap()
    };
    let (mut stats, mut hashes, mut stream) = (append("stats"), append("hashes"), append("stream"));
    let t0 = Instant::now();
    let mut pool = Pool::new();
    pool.load(&base);
    let mut keep = append("pool");
    let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut buf: Vec<u8> = vec![];
    let mut sbuf: Vec<u8> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut worst = 0f64;
    let mut early = false;
    let mut mutated = 0u64;
    let fixed = if start == 0 { regress() } else { vec![] };
    let fixed_n = fixed.len() as i64;
    let mut flush = |tags: &mut BTreeMap<&'static str, u64>,
                     evals: &mut u64,
                     buf: &mut Vec<u8>,
                     sbuf: &mut Vec<u8>,
                     samples: &mut Vec<String>| {
        let mut s = format!("E {evals}\n");
        for (t, k) in tags.iter() {
            s += &format!("T {k} {t}\n");
        }
        for l in samples.iter() {
            s += &format!("S {l}\n");
        }
        stats.write_all(s.as_bytes()).unwrap();
        hashes.write_all(buf).unwrap();
        stream.write_all(sbuf).unwrap();
        tags.clear();
        *evals = 0;
        buf.clear();
        sbuf.clear();
        samples.clear();
    };
    for k in (start as i64 - fixed_n)..count as i64 {
        if seconds > 0 && t0.elapsed().as_secs() >= seconds {
            early = true;
            break;
        }
        let idx = (k.max(0) as u64) * shards + shard;
        let (input, locs) = if k < start as i64 {
            let i = fixed[(k - start as i64 + fixed_n) as usize].clone();
            match props::domain(&p, &i) {
                Some(l) if matches!((&i, p.domain), (Input::Geo(_), d) if d != props::Domain::Free)
                    || (matches!(i, Input::Big { .. }) && (p.id == "C19" || p.id == "C29"))
                    || matches!((&i, p.domain), (Input::Text(_), props::Domain::Free) if p.id == "C17") =>
                {
                    (i, l)
                }
                _ => continue,
            }
        } else {
            let mut rng = case_rng(seed, p.id, idx);
            let mut got = None;
            if p.guided && !pool.cases.is_empty() && rng.chance(2, 5) {
                for _ in 0..4 {
                    let b = rng.pick(&pool.cases).clone();
                    let i = Input::Geo(gen::mutate(&mut rng, &b, p.domain == props::Domain::Raw));
                    if let Some(l) = props::domain(&p, &i) {
                        got = Some((i, l));
                        mutated += 1;
                        break;
                    }
                }
            }
            match got {
                Some(g) => g,
                None => fresh(&p, &mut rng, thorough),
            }
        };
        let text = format!("{k}\n{}\0", input.write());
        progress.write_all_at(text.as_bytes(), 0).unwrap();
        let mut x = Ctx::new(locs, thorough);
        if p.guided {
            cov::clear_hits();
        }
        let r = judge(&p, &input, &mut x);
        worst = worst.max(cov::count() as f64 / fuel(&p, &input) as f64);
        if p.guided {
            if pool.offer(&input) && p.crash == Crash::MemoryOnly {
                keep.write_all(format!("{}\0", input.write()).as_bytes()).unwrap();
                let _ = fs::write(format!("{base}.seen"), &pool.seen);
            }
        }
        evals += 1;
        for t in &x.tags {
            *tags.entry(t).or_default() += 1;
        }
        let h = input.hash();
        if x.nontrivial {
            buf.extend_from_slice(&h.to_le_bytes());
            if k >= 0 && k % (count as i64 / 3 + 1) == (shard as i64 * 7) % 23 {
                samples.push(input.one_line().chars().take(600).collect());
            }
        }
        if p.id == "C18" && k >= start as i64 {
            for v in [idx, h, x.digest] {
                sbuf.extend_from_slice(&v.to_le_bytes());
            }
        }
        if let Err(m) = r {
            flush(&mut tags, &mut evals, &mut buf, &mut sbuf, &mut samples);
            fs::write(format!("{base}.fail"), format!("{k}\n{m}\n")).unwrap();
            return EXIT_FAIL;
        }
        if evals == 256 || (p.crash == Crash::MemoryOnly && evals == 16) {
            flush(&mut tags, &mut evals, &mut buf, &mut sbuf, &mut samples);
        }
    }
    flush(&mut tags, &mut evals, &mut buf, &mut sbuf, &mut samples);
    stats
        .write_all(
            format!(
                "W {worst}\nC {} {}\nP {} {mutated}\nD {}\n",
                pool.edges(),
                cov::guards(),
                pool.cases.len(),
                early as u32
            )
            .as_bytes(),
        )
        .unwrap();
    0
}

/// one PROP CFG: an input on standard input; prints the digest or the failure
pub fn one(id: &str, cfg: &str) -> i32 {
    let Some(p) = find(id) else {
        eprintln!("no property {id} in this build");
        return 2;
    };
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let input = match Input::read(&s) {
        Ok(i) => i,
        Err(e) => {
            eprintln!("bad input: {e}");
            return 2;
        }
    };
    setup(cfg);
    let Some(locs) = props::domain(&p, &input) else {
        println!("not in the domain of {id}");
        return EXIT_DOMAIN;
    };
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut x = Ctx::new(locs, thorough);
    match judge(&p, &input, &mut x) {
        Ok(()) => {
            println!("OK {:016x}", x.digest);
            0
        }
        Err(m) => {
            println!("FAIL {m}");
            EXIT_FAIL
        }
    }
}

/// what a generator makes: sizes, families, time
pub fn stats(id: &str, n: u64) -> i32 {
    let p = find(id).expect("property");
    setup("asan");
    let mut fam: BTreeMap<String, u64> = BTreeMap::new();
    let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut gen_t, mut chk_t) = (0f64, 0f64);
    let mut bad = 0;
    let mut worst = 0f64;
    for i in 0..n {
        let mut rng = case_rng(1, p.id, i);
        let t = Instant::now();
        let (input, locs) = fresh(&p, &mut rng, false);
        gen_t += t.elapsed().as_secs_f64();
        if let Input::Geo(c) = &input {
            *fam.entry(c.family.clone()).or_default() += 1;
        }
        let mut x = Ctx::new(locs, false);
        let t = Instant::now();
        if let Err(m) = judge(&p, &input, &mut x) {
            bad += 1;
            if bad <= 5 {
                println!("FAIL {m}\n{}", input.write());
            }
        }
        worst = worst.max(cov::count() as f64 / fuel(&p, &input) as f64);
        chk_t += t.elapsed().as_secs_f64();
        for t in &x.tags {
            *tags.entry(t).or_default() += 1;
        }
        if x.nontrivial {
            *tags.entry("nontrivial").or_default() += 1;
        }
    }
    println!("{fam:?}\n{tags:?}");
    println!("generate {:.1} us, check {:.1} us per case, worst fuel {worst:.4}, {bad} failures",
        gen_t / n as f64 * 1e6, chk_t / n as f64 * 1e6);
    0
}
