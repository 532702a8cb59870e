//! A generated input, its text form (the replay file), and the exact admission test that decides
//! whether it belongs to the domain the properties quantify over.

use crate::exact::*;
use crate::gen::bbox;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub family: String,
    pub outer: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub steiner: Vec<P>,
    /// seed for the choices a property makes besides the geometry (call order, transform, ...)
    pub aux: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Loc {
    Inside,
    OnEdge,
    InHole,
    Outside,
}

impl Case {
    pub fn points(&self) -> Vec<P> {
        let mut v = self.outer.clone();
        for h in &self.holes {
            v.extend_from_slice(h);
        }
        v.extend_from_slice(&self.steiner);
        v
    }

    pub fn rings(&self) -> Vec<&Vec<P>> {
        std::iter::once(&self.outer).chain(self.holes.iter()).collect()
    }

    pub fn len(&self) -> usize {
        self.outer.len() + self.holes.iter().map(|h| h.len()).sum::<usize>() + self.steiner.len()
    }

    /// constrained edges as index pairs, in the point order outer, holes, steiner
    pub fn edges(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        let mut base = 0;
        for r in self.rings() {
            for i in 0..r.len() {
                v.push((base + i, base + (i + 1) % r.len()));
            }
            base += r.len();
        }
        v
    }

    pub fn map(&self, mut f: impl FnMut(P) -> P) -> Case {
        Case {
            family: self.family.clone(),
            outer: self.outer.iter().map(|q| f(*q)).collect(),
            holes: self
                .holes
                .iter()
                .map(|h| h.iter().map(|q| f(*q)).collect())
                .collect(),
            steiner: self.steiner.iter().map(|q| f(*q)).collect(),
            aux: self.aux,
        }
    }

    pub fn write(&self) -> String {
        let mut s = String::new();
        writeln!(s, "# family {}", self.family).unwrap();
        writeln!(s, "AUX {}", self.aux).unwrap();
        let ring = |s: &mut String, name: &str, r: &[P]| {
            writeln!(s, "{name}").unwrap();
            for q in r {
                // the shortest decimal that reads back as the same f64
                writeln!(s, "{:?} {:?}", q.x, q.y).unwrap();
            }
        };
        ring(&mut s, "OUTER", &self.outer);
        for h in &self.holes {
            ring(&mut s, "HOLE", h);
        }
        if !self.steiner.is_empty() {
            ring(&mut s, "STEINER", &self.steiner);
        }
        s
    }

    pub fn read(s: &str) -> Result<Case, String> {
        let mut c = Case {
            family: "replay".into(),
            outer: vec![],
            holes: vec![],
            steiner: vec![],
            aux: 0,
        };
        let mut st = 0;
        for l in s.lines() {
            let l = l.trim();
            if let Some(f) = l.strip_prefix("# family ") {
                c.family = f.into();
                continue;
            }
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            match l {
                "OUTER" => st = 1,
                "HOLE" => {
                    st = 2;
                    c.holes.push(vec![]);
                }
                "STEINER" => st = 3,
                _ if l.starts_with("AUX ") => {
                    c.aux = l[4..].parse().map_err(|e| format!("{e}"))?
                }
                _ => {
                    let v: Result<Vec<f64>, _> = l.split_whitespace().map(|t| t.parse()).collect();
                    let v = v.map_err(|e| format!("{e}: {l}"))?;
                    if v.len() != 2 {
                        return Err(format!("bad line {l}"));
                    }
                    let q = p(v[0], v[1]);
                    match st {
                        1 => c.outer.push(q),
                        2 => c.holes.last_mut().unwrap().push(q),
                        3 => c.steiner.push(q),
                        _ => return Err("point before OUTER".into()),
                    }
                }
            }
        }
        Ok(c)
    }

    pub fn one_line(&self) -> String {
        let ring = |r: &[P]| {
            r.iter()
                .map(|q| format!("{:?},{:?}", q.x, q.y))
                .collect::<Vec<_>>()
                .join(" ")
        };
        let mut s = format!("[{}] outer: {}", self.family, ring(&self.outer));
        for h in &self.holes {
            let _ = write!(s, " | hole: {}", ring(h));
        }
        if !self.steiner.is_empty() {
            let _ = write!(s, " | steiner: {}", ring(&self.steiner));
        }
        s
    }

    pub fn hash(&self) -> u64 {
        let mut h = self.outer.len() as u64 ^ ((self.holes.len() as u64) << 20);
        for q in self.points() {
            for v in [q.x, q.y] {
                let mut t = h ^ v.to_bits();
                h = crate::rng::splitmix(&mut t);
            }
        }
        h
    }
}

/// simple closed ring: at least 3 vertices, no two edges share a point other than the common
/// endpoint of neighbours
pub fn simple_ring(r: &[P]) -> bool {
    let n = r.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        if a == b {
            return false;
        }
        // neighbours: no fold back
        let c = r[(i + 2) % n];
        if orient(a, b, c) == 0 && (on_segment(a, b, c) || on_segment(b, c, a)) {
            return false;
        }
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if touch(a, b, r[j], r[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}

pub fn rings_touch(r: &[P], s: &[P]) -> bool {
    for i in 0..r.len() {
        for j in 0..s.len() {
            if touch(r[i], r[(i + 1) % r.len()], s[j], s[(j + 1) % s.len()]) {
                return true;
            }
        }
    }
    false
}

pub fn locate_in(c: &Case, q: P) -> Option<Loc> {
    Some(locate_any(c, q)).filter(|l| *l != Loc::OnEdge)
}

pub fn locate_any(c: &Case, q: P) -> Loc {
    match locate(&c.outer, q) {
        0 => return Loc::OnEdge,
        -1 => return Loc::Outside,
        _ => {}
    }
    for h in &c.holes {
        match locate(h, q) {
            0 => return Loc::OnEdge,
            1 => return Loc::InHole,
            _ => {}
        }
    }
    Loc::Inside
}

/// Every coordinate must be a value of the float type under test, the whole case must fit the
/// exact arithmetic, the outer ring must be simple, the holes simple, strictly inside and
/// mutually disjoint (not nested), the points distinct and no Steiner point on an edge.
pub fn admit(c: &Case) -> Result<Vec<Loc>, String> {
    let l = admit_on(c)?;
    if l.contains(&Loc::OnEdge) {
        return Err("steiner on edge".into());
    }
    Ok(l)
}

/// as `admit`, Steiner points exactly on constrained edges allowed
pub fn admit_on(c: &Case) -> Result<Vec<Loc>, String> {
    let pts = c.points();
    for q in &pts {
        for v in [q.x, q.y] {
            if !v.is_finite() {
                return Err("not finite".into());
            }
            if (v as poly2tri_rs::Float) as f64 != v {
                return Err("not representable".into());
            }
            if v != 0.0 && (v.abs() < 1e-60 || v.abs() > 1e60) {
                return Err("magnitude".into());
            }
        }
    }
    if bits(&pts) > 300 {
        return Err("spread".into());
    }
    let mut set: Vec<(u64, u64)> = pts
        .iter()
        .map(|q| ((q.x + 0.0).to_bits(), (q.y + 0.0).to_bits()))
        .collect();
    set.sort_unstable();
    if set.windows(2).any(|w| w[0] == w[1]) {
        return Err("duplicate point".into());
    }
    rings_ok(c)?;
    let mut locs = vec![];
    for s in &c.steiner {
        locs.push(locate_any(c, *s));
    }
    Ok(locs)
}

/// The outer ring is simple, the holes are simple, strictly inside it, disjoint and not nested.
/// The same as `rings_ok_slow`, which says it directly, but usable on large rings: only pairs of
/// edges whose bounding boxes meet are looked at.
fn rings_ok(c: &Case) -> Result<(), String> {
    let rings = c.rings();
    let mut e: Vec<(P, P, usize, usize)> = vec![];
    for (k, r) in rings.iter().enumerate() {
        let n = r.len();
        if n < 3 {
            return Err("ring too short".into());
        }
        for i in 0..n {
            let (a, b, d) = (r[i], r[(i + 1) % n], r[(i + 2) % n]);
            if a == b {
                return Err("ring edge without length".into());
            }
            if orient(a, b, d) == 0 && (on_segment(a, b, d) || on_segment(b, d, a)) {
                return Err("ring folds back".into());
            }
            e.push((a, b, k, i));
        }
    }
    let mut by: Vec<(f64, usize)> = e.iter().enumerate().map(|(i, e)| (e.0.x.min(e.1.x), i)).collect();
    by.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (mut lo, mut hi): (Vec<f64>, Vec<f64>) = (vec![], vec![]);
    for (a, b, _, _) in &e {
        lo.push(a.y.min(b.y));
        hi.push(a.y.max(b.y));
    }
    let mut active: Vec<usize> = vec![];
    for (x, i) in by {
        let (a, b, k, m) = e[i];
        active.retain(|j| e[*j].0.x.max(e[*j].1.x) >= x);
        for &j in &active {
            if lo[i] > hi[j] || lo[j] > hi[i] {
                continue;
            }
            let (u, v, l, o) = e[j];
            let n = rings[k].len();
            if k == l && ((m + 1) % n == o || (o + 1) % n == m) {
                continue;
            }
            if touch(a, b, u, v) {
                return Err("ring edges touch".into());
            }
        }
        active.push(i);
    }
    // now the rings are disjoint curves: one point of a ring decides where all of it lies
    let boxes: Vec<(P, P)> = c.holes.iter().map(|h| bbox(h)).collect();
    for (i, h) in c.holes.iter().enumerate() {
        if locate(&c.outer, h[0]) != 1 {
            return Err("hole not strictly inside".into());
        }
        for (j, g) in c.holes.iter().enumerate() {
            let (lo, hi) = boxes[j];
            let q = h[0];
            if i == j || q.x < lo.x || q.x > hi.x || q.y < lo.y || q.y > hi.y {
                continue;
            }
            if locate(g, q) != -1 {
                return Err("holes not disjoint".into());
            }
        }
    }
    Ok(())
}

/// the definition, quadratic
pub fn rings_ok_slow(c: &Case) -> Result<(), String> {
    if !simple_ring(&c.outer) {
        return Err("outer not simple".into());
    }
    for (i, h) in c.holes.iter().enumerate() {
        if !simple_ring(h) {
            return Err("hole not simple".into());
        }
        if rings_touch(&c.outer, h) || locate(&c.outer, h[0]) != 1 {
            return Err("hole not strictly inside".into());
        }
        for g in &c.holes[..i] {
            if rings_touch(g, h) || locate(g, h[0]) != -1 || locate(h, g[0]) != -1 {
                return Err("holes not disjoint".into());
            }
        }
    }
    Ok(())
}

pub fn rings_agree(c: &Case) -> bool {
    rings_ok(c).is_ok() == rings_ok_slow(c).is_ok()
}
