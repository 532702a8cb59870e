//! Validity oracles over a triangulation, all decided in exact arithmetic. None of them looks at
//! how the triangles were found or in which order they are listed.

use crate::case::*;
use crate::exact::*;
use crate::tri::Sol;

/// directed edges of the triangles, sorted, with the triangle and its third vertex
pub struct Edges {
    v: Vec<(u64, u32, u32)>,
}

fn ek(a: usize, b: usize) -> u64 {
    (a as u64) << 32 | b as u64
}

impl Edges {
    pub fn new(s: &Sol) -> Edges {
        let mut v = Vec::with_capacity(s.tri.len() * 3);
        for (i, t) in s.tri.iter().enumerate() {
            for k in 0..3 {
                v.push((ek(t[k], t[(k + 1) % 3]), i as u32, t[(k + 2) % 3] as u32));
            }
        }
        v.sort_unstable();
        Edges { v }
    }
    /// (triangle, third vertex) left of a -> b
    pub fn get(&self, a: usize, b: usize) -> Option<(usize, usize)> {
        let k = ek(a, b);
        let i = self.v.partition_point(|e| e.0 < k);
        self.v
            .get(i)
            .filter(|e| e.0 == k)
            .map(|e| (e.1 as usize, e.2 as usize))
    }
    pub fn count(&self, a: usize, b: usize) -> usize {
        let k = ek(a, b);
        self.v.partition_point(|e| e.0 <= k) - self.v.partition_point(|e| e.0 < k)
    }
    pub fn iter(&self) -> impl Iterator<Item = (usize, usize, usize)> + '_ {
        self.v
            .iter()
            .map(|e| ((e.0 >> 32) as usize, (e.0 & 0xffff_ffff) as usize, e.2 as usize))
    }
}

fn pp(q: P) -> String {
    format!("({:?}, {:?})", q.x, q.y)
}

fn tt(s: &Sol, t: &[usize; 3]) -> String {
    format!("{} {} {}", pp(s.pts[t[0]]), pp(s.pts[t[1]]), pp(s.pts[t[2]]))
}

/// ring edges directed with the region on their left, in the case's numbering
pub fn boundary(c: &Case) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut base = 0;
    for (i, r) in c.rings().into_iter().enumerate() {
        let e = min_exp(r);
        let ccw = area2(r, e).sign() > 0;
        let n = r.len();
        for k in 0..n {
            let (a, b) = (base + k, base + (k + 1) % n);
            v.push(if ccw == (i == 0) { (a, b) } else { (b, a) });
        }
        base += n;
    }
    v
}

/// every triangle has three distinct corners in strictly counter clockwise order
pub fn proper(s: &Sol) -> Result<(), String> {
    for t in &s.tri {
        if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
            return Err(format!("triangle with a repeated corner: {}", tt(s, t)));
        }
        match orient(s.pts[t[0]], s.pts[t[1]], s.pts[t[2]]) {
            1 => {}
            0 => return Err(format!("degenerate triangle {}", tt(s, t))),
            _ => return Err(format!("clockwise triangle {}", tt(s, t))),
        }
    }
    Ok(())
}

/// The triangles cover the region exactly once: with every triangle counter clockwise, the edges
/// not shared by two triangles must be exactly the ring edges, each with the region on its left
/// (so the winding number of the triangles is that of the region), and the areas must add up.
pub fn tiling(c: &Case, s: &Sol, inside: usize) -> Result<(), String> {
    let mut area = Wide::ZERO;
    let e = min_exp(&s.pts);
    for t in &s.tri {
        let a = area2(&[s.pts[t[0]], s.pts[t[1]], s.pts[t[2]]], e);
        if a.sign() < 0 {
            return Err(format!("clockwise triangle {}", tt(s, t)));
        }
        area = area.add(a);
    }
    let mut want = area2(&c.outer, e).abs();
    for h in &c.holes {
        want = want.sub(area2(h, e).abs());
    }
    if area.sub(want).sign() != 0 {
        return Err(format!(
            "the areas of the {} triangles add up to {} than the region",
            s.tri.len(),
            if area.sub(want).sign() > 0 { "more" } else { "less" }
        ));
    }
    let ring: usize = c.outer.len() + c.holes.iter().map(|h| h.len()).sum::<usize>();
    let n = ring + 2 * c.holes.len() + 2 * inside - 2;
    if s.tri.len() != n {
        return Err(format!("{} triangles, {} expected", s.tri.len(), n));
    }
    let ed = Edges::new(s);
    let mut bd = boundary(c);
    bd.sort_unstable();
    let mut open = vec![];
    for (a, b, _) in ed.iter() {
        if ed.count(a, b) != 1 {
            return Err(format!(
                "two triangles lie on the same side of the edge {} {}",
                pp(s.pts[a]),
                pp(s.pts[b])
            ));
        }
        if ed.get(b, a).is_none() {
            open.push((a, b));
        }
    }
    open.sort_unstable();
    if open != bd {
        let x = open.iter().find(|x| bd.binary_search(x).is_err());
        let y = bd.iter().find(|x| open.binary_search(x).is_err());
        return Err(match (x, y) {
            (Some(x), _) => format!(
                "the triangles end at {} {}, which is no ring edge",
                pp(s.pts[x.0]),
                pp(s.pts[x.1])
            ),
            (_, Some(y)) => format!(
                "the triangles do not end at the ring edge {} {}",
                pp(s.pts[y.0]),
                pp(s.pts[y.1])
            ),
            _ => "boundary differs".into(),
        });
    }
    Ok(())
}

/// Every ring edge is an edge of exactly one triangle, which lies on the region's side.
/// `cross`: also check that no triangle edge crosses or overlaps a ring edge (quadratic).
pub fn constraints(c: &Case, s: &Sol, cross: bool) -> Result<(), String> {
    let ed = Edges::new(s);
    for (a, b) in boundary(c) {
        let (l, r) = (ed.count(a, b), ed.count(b, a));
        if l != 1 || r != 0 {
            return Err(format!(
                "the ring edge {} {} has {l} triangles on the region's side and {r} on the other",
                pp(s.pts[a]),
                pp(s.pts[b])
            ));
        }
    }
    if cross {
        let cs = c.edges();
        for (a, b, _) in ed.iter() {
            for (u, v) in &cs {
                let (u, v) = (*u, *v);
                if (a == u && b == v) || (a == v && b == u) {
                    continue;
                }
                let (pa, pb, pu, pv) = (s.pts[a], s.pts[b], s.pts[u], s.pts[v]);
                let bad = if a == u || a == v || b == u || b == v {
                    // a common end: they must not overlap
                    let (o, x, y) = if a == u {
                        (pa, pb, pv)
                    } else if a == v {
                        (pa, pb, pu)
                    } else if b == u {
                        (pb, pa, pv)
                    } else {
                        (pb, pa, pu)
                    };
                    orient(o, x, y) == 0 && (on_segment(o, x, y) || on_segment(o, y, x))
                } else {
                    touch(pa, pb, pu, pv)
                };
                if bad {
                    return Err(format!(
                        "the triangle edge {} {} crosses the ring edge {} {}",
                        pp(pa),
                        pp(pb),
                        pp(pu),
                        pp(pv)
                    ));
                }
            }
        }
    }
    Ok(())
}

/// The corners of the triangles are exactly the ring vertices and the Steiner points inside.
/// `empty`: also check that no triangle contains a point other than its corners (quadratic).
pub fn vertices(c: &Case, s: &Sol, locs: &[Loc], empty: bool) -> Result<(), String> {
    let ring: usize = c.outer.len() + c.holes.iter().map(|h| h.len()).sum::<usize>();
    let mut used = vec![false; s.pts.len()];
    for t in &s.tri {
        for v in t {
            used[*v] = true;
        }
    }
    for (i, u) in used.iter().enumerate() {
        let want = i < ring || locs[i - ring] == Loc::Inside;
        if *u != want {
            let kind = if i < ring {
                "ring vertex".to_string()
            } else {
                format!("Steiner point ({:?})", locs[i - ring])
            };
            return Err(if want {
                format!("{kind} {} is not a corner of any triangle", pp(s.pts[i]))
            } else {
                format!("{kind} {} is a corner of a triangle", pp(s.pts[i]))
            });
        }
    }
    if empty {
        for t in &s.tri {
            let (a, b, d) = (s.pts[t[0]], s.pts[t[1]], s.pts[t[2]]);
            let (lx, hx) = (a.x.min(b.x).min(d.x), a.x.max(b.x).max(d.x));
            let (ly, hy) = (a.y.min(b.y).min(d.y), a.y.max(b.y).max(d.y));
            for (i, q) in s.pts.iter().enumerate() {
                if t.contains(&i) || q.x < lx || q.x > hx || q.y < ly || q.y > hy {
                    continue;
                }
                if orient(a, b, *q) >= 0 && orient(b, d, *q) >= 0 && orient(d, a, *q) >= 0 {
                    return Err(format!("triangle {} contains the point {}", tt(s, t), pp(*q)));
                }
            }
        }
    }
    Ok(())
}

/// how many cocircular interior edges; Err when an edge is not Delaunay
pub fn delaunay(s: &Sol) -> Result<usize, String> {
    let ed = Edges::new(s);
    let mut ties = 0;
    for (a, b, o) in ed.iter() {
        if a > b {
            continue;
        }
        let Some((_, q)) = ed.get(b, a) else { continue };
        match incircle(s.pts[a], s.pts[b], s.pts[o], s.pts[q]) {
            1 => {
                return Err(format!(
                    "the interior edge {} {} is not Delaunay: {} lies inside the circle through it and {}",
                    pp(s.pts[a]),
                    pp(s.pts[b]),
                    pp(s.pts[q]),
                    pp(s.pts[o])
                ))
            }
            0 => ties += 1,
            _ => {}
        }
    }
    Ok(ties)
}

/// The definition itself, for small cases: no vertex visible from the inside of a triangle lies
/// strictly inside its circumcircle. (Independent of the local edge test.)
pub fn delaunay_global(c: &Case, s: &Sol, locs: &[Loc]) -> Result<(), String> {
    let ring: usize = c.outer.len() + c.holes.iter().map(|h| h.len()).sum::<usize>();
    let cs = c.edges();
    for t in &s.tri {
        let v = t.map(|i| s.pts[i]);
        for (i, q) in s.pts.iter().enumerate() {
            if t.contains(&i) || (i >= ring && locs[i - ring] != Loc::Inside) {
                continue;
            }
            if incircle(v[0], v[1], v[2], *q) <= 0 {
                continue;
            }
            // q is inside the circle: every corner it sees across an open segment inside the
            // region refutes the triangle
            for k in 0..3 {
                let w = v[k];
                // the segment must cross the opposite edge, so it starts inside the triangle
                let (x, y) = (v[(k + 1) % 3], v[(k + 2) % 3]);
                if !(orient(w, x, *q) > 0 && orient(w, *q, y) > 0) {
                    continue;
                }
                let blocked = cs.iter().any(|(u, z)| {
                    let (pu, pz) = (s.pts[*u], s.pts[*z]);
                    if pu == w || pz == w || pu == *q || pz == *q {
                        // shares an end with the sight line: blocks only when it overlaps it
                        let (o, r) = if pu == w || pu == *q { (pu, pz) } else { (pz, pu) };
                        let f = if o == w { *q } else { w };
                        orient(o, f, r) == 0 && (on_segment(o, f, r) || on_segment(o, r, f))
                    } else {
                        touch(w, *q, pu, pz)
                    }
                });
                if !blocked {
                    return Err(format!(
                        "triangle {} is not constrained Delaunay: its circumcircle contains {}, visible from {}",
                        tt(s, t), pp(*q), pp(w)
                    ));
                }
            }
        }
    }
    Ok(())
}

pub struct Checked {
    pub ties: usize,
}

/// everything a triangulation of an admitted case has to satisfy
pub fn full(c: &Case, s: &Sol, locs: &[Loc]) -> Result<Checked, String> {
    let big = s.pts.len() > 200;
    proper(s)?;
    constraints(c, s, false)?;
    vertices(c, s, locs, !big)?;
    tiling(c, s, locs.iter().filter(|l| **l == Loc::Inside).count())?;
    Ok(Checked { ties: delaunay(s)? })
}
