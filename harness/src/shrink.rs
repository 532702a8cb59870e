//! Structural shrinking: every candidate passes the exact domain test of the property before the
//! failing predicate sees it, so a shrunk case is still an input the property quantifies over.

use crate::case::*;
use crate::exact::*;

fn drop_range<T: Clone>(v: &[T], i: usize, k: usize) -> Vec<T> {
    let mut r = v[..i].to_vec();
    r.extend_from_slice(&v[(i + k).min(v.len())..]);
    r
}

/// all one-step simplifications of a case, biggest first
fn candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    for i in 0..c.holes.len() {
        let mut d = c.clone();
        d.holes.remove(i);
        out.push(d);
    }
    let mut k = c.steiner.len();
    while k > 0 {
        for i in (0..c.steiner.len()).step_by(k) {
            let mut d = c.clone();
            d.steiner = drop_range(&c.steiner, i, k);
            out.push(d);
        }
        k /= 2;
    }
    let mut k = c.outer.len() / 2;
    while k > 0 {
        for i in (0..c.outer.len()).step_by(k) {
            let mut d = c.clone();
            d.outer = drop_range(&c.outer, i, k);
            out.push(d);
        }
        k /= 2;
    }
    for h in 0..c.holes.len() {
        for i in 0..c.holes[h].len() {
            let mut d = c.clone();
            d.holes[h].remove(i);
            out.push(d);
        }
    }
    out
}

fn round_to(v: f64, step: f64) -> f64 {
    (v / step).round() * step
}

fn coord_candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let pts = c.points();
    let m = pts.iter().fold(0f64, |m, q| m.max(q.x.abs()).max(q.y.abs()));
    if m == 0.0 {
        return out;
    }
    let lo = pts.iter().fold(p(f64::MAX, f64::MAX), |a, q| p(a.x.min(q.x), a.y.min(q.y)));
    let base = 2f64.powi(m.log2().ceil() as i32);
    // everything at once, coarse first
    for k in 2..30 {
        let st = base / 2f64.powi(k);
        out.push(c.map(|q| p(round_to(q.x, st), round_to(q.y, st))));
    }
    out.push(c.map(|q| p(q.x - lo.x, q.y - lo.y)));
    out.push(c.map(|q| p(q.x, q.y - lo.y)));
    out.push(c.map(|q| p(q.x - lo.x, q.y)));
    let st = 2f64.powi(min_exp(&pts).clamp(-500, 500));
    if st != 1.0 && bits(&pts) < 60 {
        out.push(c.map(|q| p(q.x / st, q.y / st)));
    }
    out
}

fn point_candidates(c: &Case, i: usize) -> Vec<Case> {
    let pts = c.points();
    let m = pts.iter().fold(0f64, |m, q| m.max(q.x.abs()).max(q.y.abs()));
    let base = 2f64.powi(m.log2().ceil() as i32);
    let mut out = vec![];
    let set = |q: P| {
        let mut d = c.clone();
        let mut j = i;
        for r in std::iter::once(&mut d.outer)
            .chain(d.holes.iter_mut())
            .chain(std::iter::once(&mut d.steiner))
        {
            if j < r.len() {
                r[j] = q;
                break;
            }
            j -= r.len();
        }
        d
    };
    for k in 3..24 {
        let st = base / 2f64.powi(k);
        let q = p(round_to(pts[i].x, st), round_to(pts[i].y, st));
        if q != pts[i] {
            out.push(set(q));
        }
    }
    out
}

/// a measure that every accepted coordinate change must lower, so shrinking terminates
fn weight(c: &Case) -> usize {
    c.points()
        .iter()
        .flat_map(|q| [q.x, q.y])
        .map(|v| format!("{v:?}").len())
        .sum()
}

/// `ok` is the domain test of the property, `fails` the failing predicate
pub fn shrink(
    start: Case,
    budget: usize,
    ok: impl Fn(&Case) -> bool,
    mut fails: impl FnMut(&Case) -> bool,
) -> (Case, usize) {
    let mut cur = start;
    let mut used = 0;
    let mut test = |d: &Case, used: &mut usize| -> bool {
        if *used >= budget || !ok(d) {
            return false;
        }
        *used += 1;
        fails(d)
    };
    loop {
        let mut progress = false;
        'outer: loop {
            for d in candidates(&cur) {
                if test(&d, &mut used) {
                    cur = d;
                    progress = true;
                    continue 'outer;
                }
            }
            break;
        }
        for d in coord_candidates(&cur) {
            if weight(&d) < weight(&cur) && test(&d, &mut used) {
                cur = d;
                progress = true;
                break;
            }
        }
        for i in 0..cur.len() {
            for d in point_candidates(&cur, i) {
                if weight(&d) < weight(&cur) && test(&d, &mut used) {
                    cur = d;
                    progress = true;
                    break;
                }
            }
        }
        if !progress || used >= budget {
            return (cur, used);
        }
    }
}
