//! The file loader: a writer that varies the layout, and a model of the grammar.

use crate::case::*;
use crate::exact::*;
use crate::gen;
use crate::input::Input;
use crate::props::Ctx;
use crate::rng::Rng;
use crate::tri::fp;
use poly2tri_rs::loader::{Loader, PlainFileLoader};
use poly2tri_rs::{Builder, Float, Point};
use std::path::PathBuf;
use std::sync::OnceLock;

type R = Result<(), String>;

/// the names of the files that are loaded
const NAMES: [&str; 6] = ["a.dat", "a b.txt", "\u{fc}\u{4e2d}.dat", "a", "A.DAT.gz", ".dat"];

/// a scratch folder of this process, removed by `cleanup`
fn dir() -> &'static PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let base = std::env::var_os("P2T_SCRATCH")
            .map(PathBuf::from)
            .unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("p2tcheck-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch folder");
        d
    })
}

pub fn cleanup() {
    let base = std::env::var_os("P2T_SCRATCH")
        .map(PathBuf::from)
        .unwrap_or_else(std::env::temp_dir);
    let d = base.join(format!("p2tcheck-{}", std::process::id()));
    for f in NAMES.iter().chain(&["b.dat"]) {
        let _ = std::fs::remove_file(d.join(f));
    }
    let _ = std::fs::remove_dir(d);
}

fn number(rng: &mut Rng, v: f64) -> String {
    let s = match rng.below(8) {
        0 => format!("{v:e}"),
        1 => format!("{v:E}"),
        2 => format!("{v:.17e}"),
        3 if v.fract() == 0.0 && v.abs() < 1e15 => format!("{v:.0}"),
        3 => format!("{v}"),
        4 if v >= 0.0 => format!("+{v:?}"),
        5 if v.fract() == 0.0 && v.abs() < 1e15 => format!("{v:.0}."),
        6 if v.abs() < 1.0 && v.abs() > 1e-5 => {
            let t = format!("{v}");
            t.replacen("0.", ".", 1)
        }
        7 if v.abs() < 1e6 => {
            // leading zeros and trailing zeros
            let t = format!("{v:.1}");
            if t.parse::<f64>() == Ok(v) {
                format!("{t}00")
            } else {
                format!("{v:?}")
            }
        }
        _ => format!("{v:?}"),
    };
    if s.parse::<f64>().map(|x| x.to_bits()) == Ok(v.to_bits()) {
        s
    } else {
        format!("{v:?}")
    }
}

struct Layout {
    vary: bool,
    crlf: bool,
    blanks: bool,
    tabs: bool,
    last_newline: bool,
    interleave: bool,
}

/// the case as a file, and the order in which the loader must add the holes and Steiner points
fn write_file(c: &Case, rng: &mut Rng, x: Option<&mut Ctx>) -> (String, Vec<usize>, Vec<usize>) {
    let l = Layout {
        vary: rng.chance(2, 3),
        crlf: rng.chance(1, 4),
        blanks: rng.chance(1, 3),
        tabs: rng.chance(1, 3),
        last_newline: !rng.chance(1, 4),
        interleave: rng.chance(1, 2),
    };
    let mut lines: Vec<String> = vec![];
    let point = |rng: &mut Rng, q: P| -> String {
        let (a, b) = if l.vary {
            (number(rng, q.x), number(rng, q.y))
        } else {
            (format!("{:?}", q.x), format!("{:?}", q.y))
        };
        let sep = if l.tabs {
            *rng.pick(&[" ", "\t", "  ", " \t ", "   ", "            \t            "])
        } else {
            " "
        };
        let (pre, post) = if l.tabs && rng.chance(1, 3) {
            (*rng.pick(&["", " ", "\t"]), *rng.pick(&["", " ", "\t", "  "]))
        } else {
            ("", "")
        };
        format!("{pre}{a}{sep}{b}{post}")
    };
    for q in &c.outer {
        lines.push(point(rng, *q));
    }
    // sections
    let mut hs: Vec<usize> = (0..c.holes.len()).collect();
    let mut ss: Vec<usize> = (0..c.steiner.len()).collect();
    let (ho, so);
    if l.interleave {
        rng.shuffle(&mut hs);
        rng.shuffle(&mut ss);
        ho = hs.clone();
        so = ss.clone();
        while !hs.is_empty() || !ss.is_empty() {
            if ss.is_empty() || (!hs.is_empty() && rng.chance(1, 2)) {
                let h = hs.remove(0);
                lines.push("HOLE".into());
                for q in &c.holes[h] {
                    lines.push(point(rng, *q));
                }
            } else {
                let k = 1 + rng.below(ss.len());
                lines.push("STEINER".into());
                for i in ss.drain(..k) {
                    lines.push(point(rng, c.steiner[i]));
                }
            }
        }
    } else {
        for h in &c.holes {
            lines.push("HOLE".into());
            for q in h {
                lines.push(point(rng, *q));
            }
        }
        if !c.steiner.is_empty() {
            lines.push("STEINER".into());
            for q in &c.steiner {
                lines.push(point(rng, *q));
            }
        }
        ho = hs;
        so = ss;
    }
    if l.blanks {
        let k = 1 + rng.below(4);
        for _ in 0..k {
            let i = rng.below(lines.len() + 1);
            lines.insert(i, (*rng.pick(&["", " ", "\t", "   "])).into());
        }
    }
    let nl = if l.crlf { "\r\n" } else { "\n" };
    // both kinds of line ends in one file
    let mixed = l.crlf && rng.chance(1, 3);
    let mut s = String::new();
    for (k, line) in lines.iter().enumerate() {
        s.push_str(line);
        if k + 1 < lines.len() || l.last_newline {
            s.push_str(if mixed && rng.chance(1, 2) { "\n" } else { nl });
        }
    }
    if let Some(x) = x {
        let mut t = |b: bool, n: &'static str| {
            if b {
                x.tags.push(n)
            }
        };
        t(l.vary, "varied numbers");
        t(l.crlf, "CRLF");
        t(l.blanks, "blank lines");
        t(l.tabs, "tabs and spaces");
        t(!l.last_newline, "no final newline");
        t(l.interleave && !c.holes.is_empty() && !c.steiner.is_empty(), "interleaved sections");
        t(s.len() > 8192, "file larger than 8 KiB");
        t(s.len() > 65536, "file larger than 64 KiB");
        x.nontrivial = l.vary
            || l.crlf
            || l.blanks
            || l.tabs
            || !l.last_newline
            || !c.holes.is_empty()
            || !c.steiner.is_empty();
    }
    (s, ho, so)
}

fn same(loaded: Builder<()>, hand: Builder<()>) -> R {
    let a = loaded.build().triangulate();
    let b = hand.build().triangulate();
    let bits = |v: &[Point]| -> Vec<(u64, u64)> {
        v.iter()
            .map(|q| ((q.x as f64).to_bits(), (q.y as f64).to_bits()))
            .collect()
    };
    let (pa, pb) = (bits(a.points()), bits(b.points()));
    if pa.len() != pb.len() {
        return Err(format!("{} points loaded, {} expected", pa.len(), pb.len()));
    }
    if let Some(k) = (0..pa.len()).find(|k| pa[*k] != pb[*k]) {
        return Err(format!(
            "point {k} loaded as {:?}, expected {:?}",
            a.points()[k],
            b.points()[k]
        ));
    }
    if a.data().len() != b.data().len() {
        return Err("the numbers of data differ".into());
    }
    if a.triangle_list_indices() != b.triangle_list_indices() {
        return Err("the triangulation of the loaded file differs from the one built by hand".into());
    }
    Ok(())
}

fn hand(outer: &[P], holes: &[Vec<P>], steiner: &[P]) -> Builder<()> {
    let f = |v: &[P]| v.iter().map(|q| fp(*q)).collect::<Vec<_>>();
    Builder::new(f(outer))
        .add_holes(holes.iter().map(|h| f(h)).collect::<Vec<_>>())
        .add_steiner_points(f(steiner))
}

pub fn c16(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    let mut rng = Rng::new(c.aux ^ 0x16);
    let (s, ho, so) = write_file(c, &mut rng, Some(x));
    let path = dir().join(rng.pick(&NAMES));
    std::fs::write(&path, s.as_bytes()).map_err(|e| format!("harness: {e}"))?;
    let mut l = PlainFileLoader::default();
    if rng.chance(1, 3) {
        // a loader is reusable, whatever it loaded before
        x.tags.push("reused loader");
        let other = dir().join("b.dat");
        let t = if rng.chance(1, 2) {
            "0 0\n5 0\n5 5\nHOLE\n3 1\n4 1\n4 2\nSTEINER\n3.5 0.5\n"
        } else {
            "0 0\n5 0\nHOLE\n3 x\n"
        };
        std::fs::write(&other, t).map_err(|e| format!("harness: {e}"))?;
        let _ = l.load(other.to_str().unwrap());
    }
    let b = l
        .load(path.to_str().unwrap())
        .map_err(|e| format!("a well formed file is rejected: {e:?}"))?;
    let holes: Vec<Vec<P>> = ho.iter().map(|i| c.holes[*i].clone()).collect();
    let st: Vec<P> = so.iter().map(|i| c.steiner[*i]).collect();
    same(b, hand(&c.outer, &holes, &st))?;
    // and once more: loading has no side effect on the file
    let again = std::fs::read(&path).map_err(|e| format!("the file is gone: {e}"))?;
    if again != s.as_bytes() {
        return Err("loading changed the file".into());
    }
    Ok(())
}

pub enum Model {
    /// outer, holes, Steiner points
    Accept(Vec<P>, Vec<Vec<P>>, Vec<P>),
    Reject(&'static str),
    /// the format does not say
    Unspecified,
}

/// what the file format says about a file
pub fn model(b: &[u8]) -> Model {
    let Ok(s) = std::str::from_utf8(b) else {
        return Model::Reject("not UTF-8");
    };
    let mut outer = vec![];
    let mut holes: Vec<Vec<P>> = vec![];
    let mut st = vec![];
    let mut state = 0;
    let mut unspecified = false;
    for line in s.lines() {
        match line {
            "HOLE" => {
                state = 1;
                holes.push(vec![]);
                continue;
            }
            "STEINER" => {
                state = 2;
                continue;
            }
            _ => {}
        }
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        if t.len() == 1 {
            if t[0] == "HOLE" || t[0] == "STEINER" {
                // a header with blanks around it
                unspecified = true;
                continue;
            }
            return if unspecified {
                Model::Unspecified
            } else {
                Model::Reject("one value on a line")
            };
        }
        let (a, b) = (t[0].parse::<Float>(), t[1].parse::<Float>());
        let (Ok(a), Ok(b)) = (a, b) else {
            return if unspecified {
                Model::Unspecified
            } else {
                Model::Reject("not a number")
            };
        };
        if !a.is_finite() || !b.is_finite() || t.len() > 2 {
            unspecified = true;
        }
        let q = p(a as f64, b as f64);
        match state {
            0 => outer.push(q),
            1 => holes.last_mut().unwrap().push(q),
            _ => st.push(q),
        }
    }
    if unspecified {
        return Model::Unspecified;
    }
    // the builder refuses consecutive repeated points, and a ring of one point is its own neighbour
    let repeats = |r: &Vec<P>| (0..r.len()).any(|i| r[i] == r[(i + 1) % r.len()]);
    if repeats(&outer) || holes.iter().any(repeats) {
        return Model::Reject("a repeated point in a ring");
    }
    Model::Accept(outer, holes, st)
}

pub fn gen_bad(rng: &mut Rng) -> Vec<u8> {
    let outside = rng.chance(1, 4);
    let large = rng.chance(1, 250);
    let c = if large {
        // longer than the usual buffers
        gen::big_mix(rng, 8000, outside).case().unwrap()
    } else {
        gen::gen(
            rng,
            gen::Opts {
                inside: true,
                outside,
                holes: true,
                max_n: 14,
            },
        )
    };
    let (s, _, _) = write_file(&c, rng, None);
    let mut b = s.into_bytes();
    if large && rng.chance(1, 2) {
        // a character of several bytes, or a part of one, across a multiple of a buffer's size
        let unit = *rng.pick(&[1024, 4096, 8192, 65536]);
        if b.len() > unit {
            let at = unit * (1 + rng.below(b.len() / unit)) - rng.below(4);
            let bad: &[u8] = *rng.pick(&[
                "\u{663}".as_bytes(),
                "\u{ff11}".as_bytes(),
                "\u{1d7cf}".as_bytes(),
                &b"\xff"[..],
                &b"\xf0\x9f"[..],
                &b"x"[..],
            ]);
            b.splice(at..at, bad.iter().copied());
            return b;
        }
    }
    let garbage: [&str; 26] = [
        "abc", "1,2", "--1", "1e", "0x10", "1_000", "\u{663}", "1..2", "+", "-", ".", "e5", "1e+",
        "\u{ff11}", "1f", "12a", "HOLE", "STEINER", "hole", "HOLES", "Steiner", "1;", "(1", "\"3\"", "#", "//",
    ];
    let k = 1 + rng.below(2);
    for _ in 0..k {
        if b.is_empty() {
            break;
        }
        let text = String::from_utf8_lossy(&b).into_owned();
        let mut lines: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
        let mut li = rng.below(lines.len());
        if large && rng.chance(1, 2) {
            // late in the file
            li = lines.len() - 1 - rng.below(lines.len().min(4));
        }
        match rng.below(14) {
            12 => {
                // a point once more, right after it or at the end of its ring
                let at = match rng.below(3) {
                    0 => lines.iter().position(|l| l.starts_with("HOLE")).unwrap_or(lines.len()),
                    1 => lines.iter().skip(li + 1).position(|l| l.starts_with(['H', 'S'])).map_or(lines.len(), |k| li + 1 + k),
                    _ => li + 1,
                };
                let again = lines[if rng.chance(1, 2) { 0 } else { li }].clone();
                lines.insert(at, again);
                b = lines.join("\n").into_bytes();
            }
            13 => {
                // something after the two numbers, or numbers that are none
                let g = *rng.pick(&["1", "x", "# c", ",", "nan", "0 0"]);
                let w = *rng.pick(&["inf 0", "nan nan", "-inf inf", "1e400 1", "infinity 3", "NaN 2"]);
                lines[li] = if rng.chance(1, 2) { format!("{} {g}", lines[li]) } else { w.into() };
                b = lines.join("\n").into_bytes();
            }
            0 => {
                // drop the second token
                let t: Vec<&str> = lines[li].split_whitespace().collect();
                if t.len() == 2 {
                    lines[li] = t[rng.below(2)].to_string();
                }
                b = lines.join("\n").into_bytes();
            }
            1..=3 => {
                let t: Vec<String> = lines[li].split_whitespace().map(|x| x.to_string()).collect();
                if t.len() == 2 {
                    let g = rng.pick(&garbage).to_string();
                    lines[li] = if rng.chance(1, 2) {
                        format!("{} {}", g, t[1])
                    } else {
                        format!("{} {}", t[0], g)
                    };
                }
                b = lines.join("\n").into_bytes();
            }
            4 => {
                let g = *rng.pick(&garbage);
                lines.insert(li, if rng.chance(1, 2) { g.to_string() } else { format!("{g} {g}") });
                b = lines.join("\n").into_bytes();
            }
            5 => {
                // glue the tokens
                lines[li] = lines[li].split_whitespace().collect::<Vec<_>>().join(",");
                b = lines.join("\n").into_bytes();
            }
            6 => {
                // bytes that are not UTF-8
                let at = rng.below(b.len() + 1);
                let bad: &[u8] = *rng.pick(&[
                    &b"\xff"[..],
                    &b"\xc3\x28"[..],
                    &b"\x80"[..],
                    &b"\xed\xa0\x80"[..],
                    &b"\xf0\x9f"[..],
                ]);
                b.splice(at..at, bad.iter().copied());
            }
            7 => {
                let at = rng.below(b.len() + 1);
                b.truncate(at);
            }
            8 => {
                let at = rng.below(b.len());
                b[at] = rng.below(256) as u8;
            }
            9 => {
                let at = rng.below(b.len());
                b.remove(at);
            }
            10 => {
                // misspelled header
                if let Some(h) = lines.iter_mut().find(|l| l.starts_with("HOLE") || l.starts_with("STEINER")) {
                    *h = (*rng.pick(&["hole", "Hole", "HOLES", "HOLE:", "STEINER:", "steiner", "[HOLE]", "HOLE1", "STEINERS"])).into();
                }
                b = lines.join("\n").into_bytes();
            }
            _ => {
                let n = rng.below(40);
                b = (0..n)
                    .map(|_| *rng.pick(b"0123456789.-+eE \n\r\tHOLESTINR\xe2\x00") )
                    .collect();
            }
        }
    }
    b
}

pub fn c17(i: &Input, x: &mut Ctx) -> R {
    let Input::Text(b) = i else {
        return Err("not a text input".into());
    };
    let m = model(b);
    let mut l = PlainFileLoader::default();
    let h = i.hash();
    if h % 50 == 0 {
        x.tags.push("missing file, folder");
        let none = dir().join("does-not-exist.dat");
        if l.load(none.to_str().unwrap()).is_ok() {
            return Err("loading a file that does not exist succeeds".into());
        }
        if l.load(dir().to_str().unwrap()).is_ok() {
            return Err("loading a folder succeeds".into());
        }
        if l.load("").is_ok() {
            return Err("loading from an empty path succeeds".into());
        }
    }
    let path = dir().join("a.dat");
    std::fs::write(&path, b).map_err(|e| format!("harness: {e}"))?;
    match m {
        Model::Unspecified => {
            x.tags.push("unspecified");
            // either way, but no panic
            let _ = l.load(path.to_str().unwrap());
            Ok(())
        }
        Model::Reject(why) => {
            x.nontrivial = true;
            x.tags.push(why);
            if b.len() > 8192 {
                x.tags.push("malformed file larger than 8 KiB");
            }
            match l.load(path.to_str().unwrap()) {
                Ok(_) => Err(format!("a malformed file ({why}) is accepted")),
                Err(e) => {
                    // an error can be shown
                    let t = format!("{e} {e:?}");
                    if t.len() < 2 {
                        return Err("the error has no text".into());
                    }
                    // and the loader still works
                    if h % 4 == 0 {
                        let ok = dir().join("b.dat");
                        std::fs::write(&ok, "0 0\n4 0\n0 4\n").map_err(|e| format!("harness: {e}"))?;
                        let r = l
                            .load(ok.to_str().unwrap())
                            .map_err(|e| format!("after a malformed file a good one is rejected: {e:?}"))?;
                        same(r, hand(&[p(0.0, 0.0), p(4.0, 0.0), p(0.0, 4.0)], &[], &[]))
                            .map_err(|e| format!("after a malformed file: {e}"))?;
                    }
                    Ok(())
                }
            }
        }
        Model::Accept(o, hs, st) => {
            x.tags.push("still well formed");
            let b = l
                .load(path.to_str().unwrap())
                .map_err(|e| format!("a well formed file is rejected: {e:?}"))?;
            let c = Case {
                family: String::new(),
                outer: o,
                holes: hs.into_iter().filter(|h| !h.is_empty()).collect(),
                steiner: st,
                aux: 0,
            };
            if admit(&c).is_ok() {
                x.tags.push("still a valid polygon");
                same(b, hand(&c.outer, &c.holes, &c.steiner))?;
            }
            Ok(())
        }
    }
}
