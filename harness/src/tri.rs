//! Runs the code under test on a case through its public interface, by a route chosen from the
//! case's `aux` seed, and translates the answer back to the case's own point numbering.

use crate::case::Case;
use crate::exact::*;
use crate::rng::Rng;
use poly2tri_rs::{Builder, Float, Point};

pub fn fp(q: P) -> Point {
    Point::new(q.x as Float, q.y as Float)
}

pub fn fps(v: &[P]) -> Vec<Point> {
    v.iter().map(|q| fp(*q)).collect()
}

/// one call on the builder after `new(outer)`
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Hole(usize),
    Holes(Vec<usize>),
    Steiner(usize),
    SteinerBatch(Vec<usize>),
}

pub type Plan = Vec<Op>;

/// holes and Steiner points in the case's order
pub fn plain(c: &Case) -> Plan {
    let mut v = vec![];
    for i in 0..c.holes.len() {
        v.push(Op::Hole(i));
    }
    if !c.steiner.is_empty() {
        v.push(Op::SteinerBatch((0..c.steiner.len()).collect()));
    }
    v
}

/// any interleaving of single and batch calls
pub fn random_plan(c: &Case, rng: &mut Rng) -> Plan {
    let mut hs: Vec<usize> = (0..c.holes.len()).collect();
    let mut ss: Vec<usize> = (0..c.steiner.len()).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut hs);
        rng.shuffle(&mut ss);
    }
    let mut v = vec![];
    while !hs.is_empty() || !ss.is_empty() {
        let hole = if hs.is_empty() {
            false
        } else if ss.is_empty() {
            true
        } else {
            rng.chance(1, 2)
        };
        if hole {
            let k = 1 + rng.below(hs.len());
            let r: Vec<usize> = if rng.chance(1, 2) {
                hs.drain(..1).collect()
            } else {
                hs.drain(..k).collect()
            };
            if r.len() == 1 && rng.chance(2, 3) {
                v.push(Op::Hole(r[0]));
            } else {
                v.push(Op::Holes(r));
            }
        } else {
            let k = 1 + rng.below(ss.len());
            let r: Vec<usize> = if rng.chance(1, 2) {
                ss.drain(..1).collect()
            } else {
                ss.drain(..k).collect()
            };
            if r.len() == 1 && rng.chance(2, 3) {
                v.push(Op::Steiner(r[0]));
            } else {
                v.push(Op::SteinerBatch(r));
            }
        }
    }
    // empty batches are legal calls
    if rng.chance(1, 12) {
        v.push(Op::SteinerBatch(vec![]));
    }
    if rng.chance(1, 12) {
        v.push(Op::Holes(vec![]));
    }
    v
}

/// case index of every builder index under a plan
pub fn order(c: &Case, plan: &[Op]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..c.outer.len()).collect();
    let mut base = vec![];
    let mut b = c.outer.len();
    for h in &c.holes {
        base.push(b);
        b += h.len();
    }
    for op in plan {
        match op {
            Op::Hole(i) => v.extend((0..c.holes[*i].len()).map(|k| base[*i] + k)),
            Op::Holes(r) => {
                for i in r {
                    v.extend((0..c.holes[*i].len()).map(|k| base[*i] + k))
                }
            }
            Op::Steiner(i) => v.push(b + i),
            Op::SteinerBatch(r) => v.extend(r.iter().map(|i| b + i)),
        }
    }
    v
}

pub fn builder(c: &Case, plan: &[Op]) -> Builder<()> {
    let mut b = Builder::new(fps(&c.outer));
    for op in plan {
        b = match op {
            Op::Hole(i) => b.add_hole(fps(&c.holes[*i])),
            Op::Holes(r) => b.add_holes(r.iter().map(|i| fps(&c.holes[*i])).collect::<Vec<_>>()),
            Op::Steiner(i) => b.add_steiner_point(fp(c.steiner[*i]), ()),
            Op::SteinerBatch(r) => {
                b.add_steiner_points(r.iter().map(|i| fp(c.steiner[*i])).collect::<Vec<_>>())
            }
        };
    }
    b
}

/// a triangulation in the case's numbering (outer, holes, Steiner points)
pub struct Sol {
    pub pts: Vec<P>,
    pub tri: Vec<[usize; 3]>,
}

pub fn plan_of(c: &Case) -> Plan {
    let mut rng = Rng::new(c.aux);
    if rng.chance(1, 2) {
        plain(c)
    } else {
        random_plan(c, &mut rng)
    }
}

pub fn translate(c: &Case, ord: &[usize], idx: &[u32]) -> Result<Sol, String> {
    let pts = c.points();
    if idx.len() % 3 != 0 {
        return Err(format!("index list has length {}", idx.len()));
    }
    let mut tri = Vec::with_capacity(idx.len() / 3);
    for t in idx.chunks(3) {
        let mut r = [0; 3];
        for k in 0..3 {
            r[k] = *ord.get(t[k] as usize).ok_or_else(|| {
                format!("index {} out of range, {} points", t[k], ord.len())
            })?;
        }
        tri.push(r);
    }
    Ok(Sol { pts, tri })
}

/// triangulate along the route `plan`
pub fn solve_plan(c: &Case, plan: &[Op]) -> Result<Sol, String> {
    let ord = order(c, plan);
    let t = builder(c, plan).build().triangulate();
    let idx = t.triangle_list_indices();
    translate(c, &ord, &idx)
}

/// triangulate along the route the case's aux seed selects
pub fn solve(c: &Case) -> Result<Sol, String> {
    solve_plan(c, &plan_of(c))
}

/// triangulate along the plainest route
pub fn solve_plain(c: &Case) -> Result<Sol, String> {
    solve_plan(c, &plain(c))
}

pub type Tri6 = [u64; 6];

fn key(v: f64) -> u64 {
    // -0.0 and 0.0 are the same coordinate
    (v + 0.0).to_bits()
}

/// the triangle as coordinates, smallest vertex first, orientation kept
pub fn canon(a: P, b: P, c: P) -> Tri6 {
    let v = [a, b, c].map(|q| (key(q.x), key(q.y)));
    let m = (0..3).min_by_key(|i| v[*i]).unwrap();
    let (a, b, c) = (v[m], v[(m + 1) % 3], v[(m + 2) % 3]);
    [a.0, a.1, b.0, b.1, c.0, c.1]
}

impl Sol {
    /// sorted list of the triangles by coordinates under a map
    pub fn set(&self, f: impl Fn(P) -> P) -> Vec<Tri6> {
        let mut v: Vec<Tri6> = self
            .tri
            .iter()
            .map(|t| canon(f(self.pts[t[0]]), f(self.pts[t[1]]), f(self.pts[t[2]])))
            .collect();
        v.sort_unstable();
        v
    }

    /// as `set`, with every triangle reversed (for maps that flip the plane)
    pub fn set_rev(&self, f: impl Fn(P) -> P) -> Vec<Tri6> {
        let mut v: Vec<Tri6> = self
            .tri
            .iter()
            .map(|t| canon(f(self.pts[t[0]]), f(self.pts[t[2]]), f(self.pts[t[1]])))
            .collect();
        v.sort_unstable();
        v
    }
}

pub fn show(t: &Tri6) -> String {
    let f = |i: usize| f64::from_bits(t[i]);
    format!(
        "({:?},{:?}) ({:?},{:?}) ({:?},{:?})",
        f(0),
        f(1),
        f(2),
        f(3),
        f(4),
        f(5)
    )
}

pub fn diff(what: &str, a: &[Tri6], b: &[Tri6]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let l = a.iter().find(|t| b.binary_search(t).is_err());
    let r = b.iter().find(|t| a.binary_search(t).is_err());
    Err(format!(
        "{what}: {} and {} triangles; only in the first: {}; only in the second: {}",
        a.len(),
        b.len(),
        l.map_or("-".into(), show),
        r.map_or("-".into(), show)
    ))
}
