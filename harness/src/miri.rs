//! C31: a Miri process that triangulates the inputs it is sent, and what it says about them.

use crate::case::Case;
use crate::cov;
use crate::exact::P;
use crate::input::Input;
use crate::props::Ctx;
use crate::tri::{builder, plain};
use std::cell::RefCell;
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

type R = Result<(), String>;

/// control flow edges of a case that Miri runs in about a second
const MOST: u64 = 12_000;

struct Miri {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
    err: String,
}

/// one process for each of Miri's two models of what references may alias
const MODELS: [(&str, &str); 2] = [("under Tree Borrows", "-Zmiri-tree-borrows"), ("under Stacked Borrows", "")];

thread_local!(static MIRI: RefCell<[Option<Miri>; 2]> = const { RefCell::new([None, None]) });

fn give_up(what: &str) -> ! {
    eprintln!("Miri: {what}");
    std::process::exit(3);
}

fn start(model: usize) -> Miri {
    let var = |k: &str| std::env::var(k).unwrap_or_else(|_| give_up(&format!("{k} is not set")));
    let dir = std::env::var("P2T_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let err = format!("{dir}/miri-{}-{model}.err", std::process::id());
    let log = fs::File::create(&err).unwrap_or_else(|e| give_up(&e.to_string()));
    let mut child = Command::new("cargo")
        .args(["+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path"])
        .arg(format!("{}/miri/Cargo.toml", var("P2T_VERIF")))
        .arg("--target-dir")
        .arg(format!("{}/miri", var("P2T_BIN")))
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {}", MODELS[model].1))
        .env_remove("RUSTC_WRAPPER")
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(log)
        .spawn()
        .unwrap_or_else(|e| give_up(&e.to_string()));
    let to = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    let (tx, from) = channel();
    std::thread::spawn(move || {
        for l in out.lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Miri { child, to, from, err }
}

fn stop(mut m: Miri) -> String {
    drop(m.to);
    let _ = m.child.kill();
    let _ = m.child.wait();
    let s = fs::read_to_string(&m.err).unwrap_or_default();
    let _ = fs::remove_file(&m.err);
    s
}

/// ends the process, and with it the wait for it
pub fn cleanup() {
    for m in MIRI.with(|m| m.borrow_mut().each_mut().map(|m| m.take())).into_iter().flatten() {
        stop(m);
    }
}

fn line(c: &Case, nosy: bool) -> String {
    let mut s = format!("{}", nosy as u8);
    let ring = |s: &mut String, v: &[P]| {
        *s += &format!(" {:x}", v.len());
        for q in v {
            *s += &format!(" {:x} {:x}", q.x.to_bits(), q.y.to_bits());
        }
    };
    ring(&mut s, &c.outer);
    s += &format!(" {:x}", c.holes.len());
    for h in &c.holes {
        ring(&mut s, h);
    }
    ring(&mut s, &c.steiner);
    s + "\n"
}

pub fn c31(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    if c.len() > 60 {
        x.tags.push("too large to interpret");
        return Ok(());
    }
    let before = cov::count();
    let native = catch_unwind(AssertUnwindSafe(|| {
        builder(c, &plain(c)).build().triangulate().triangle_list_indices().len()
    }));
    let cost = cov::count() - before;
    if cost > MOST {
        x.tags.push("too long to interpret");
        return Ok(());
    }
    let nosy = c.aux & 3 == 0 && cost < MOST / 6;
    let model = (c.aux >> 2) as usize & 1;
    let answer = MIRI.with(|m| {
        let m = &mut m.borrow_mut()[model];
        let p = m.get_or_insert_with(|| start(model));
        let _ = p.to.write_all(line(c, nosy).as_bytes());
        let _ = p.to.flush();
        match p.from.recv_timeout(Duration::from_secs(150)) {
            Ok(a) => Ok(a),
            Err(RecvTimeoutError::Timeout) => {
                stop(m.take().unwrap());
                Ok("too slow".into())
            }
            Err(RecvTimeoutError::Disconnected) => Err(stop(m.take().unwrap())),
        }
    });
    match answer {
        Ok(a) if a == "too slow" => {
            x.tags.push("interpreter too slow");
            return Ok(());
        }
        Ok(a) => x.tags.push(if a == "returned" { "returned" } else { "panicked" }),
        Err(e) => {
            let Some(m) = e.lines().find(|l| l.contains("Undefined Behavior:")) else {
                give_up(&e.lines().filter(|l| l.contains("error")).collect::<Vec<_>>().join(" "));
            };
            let at = e.lines().filter(|l| l.contains("repo/src/")).last().unwrap_or("");
            let at = e
                .split_once("Undefined Behavior:")
                .and_then(|(_, r)| r.lines().find(|l| l.trim().starts_with("-->")))
                .unwrap_or(at);
            return Err(format!(
                "undefined behaviour: {} {}",
                m.split("Undefined Behavior:").nth(1).unwrap_or("").trim(),
                at.trim()
            ));
        }
    }
    x.tags.push(MODELS[model].0);
    x.tags.push(if nosy { "with an observer" } else { "without observer" });
    x.nontrivial = native.map_or(true, |n| n > 3);
    Ok(())
}
