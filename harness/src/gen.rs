//! Structured generators. Every generator constructs inputs of the admitted domain (simple outer
//! ring, disjoint holes strictly inside, distinct points, no Steiner point on an edge); the exact
//! test `case::admit` confirms each one, so no oracle ever sees an input outside the domain.

use crate::case::*;
use crate::exact::*;
use crate::input::Input;
use crate::rng::Rng;
use poly2tri_rs::Float;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// generate f32 values whatever the float type under test is
pub static FORCE_F32: AtomicBool = AtomicBool::new(false);

pub fn q(v: f64) -> f64 {
    // round to the float type under test
    if FORCE_F32.load(Relaxed) {
        (v as f32) as f64
    } else {
        (v as Float) as f64
    }
}

#[derive(Clone, Copy)]
pub enum Lat {
    /// integers 0..=n
    Grid(i64),
    /// reals in 0..s
    Real(f64),
}

impl Lat {
    fn pick(rng: &mut Rng) -> Lat {
        match rng.below(10) {
            0 => Lat::Grid(4),
            1 => Lat::Grid(6),
            2 => Lat::Grid(9),
            3 => Lat::Grid(16),
            4 => Lat::Grid(40),
            5 => Lat::Grid(1000),
            6 => Lat::Real(1.0),
            _ => Lat::Real(800.0),
        }
    }
    fn span(&self) -> f64 {
        match self {
            Lat::Grid(n) => *n as f64,
            Lat::Real(s) => *s,
        }
    }
    fn snap(&self, v: f64) -> f64 {
        match self {
            Lat::Grid(n) => v.round().clamp(0.0, *n as f64),
            Lat::Real(_) => q(v),
        }
    }
    fn coord(&self, rng: &mut Rng) -> f64 {
        match self {
            Lat::Grid(n) => rng.range(0, *n) as f64,
            Lat::Real(s) => q(rng.f() * s),
        }
    }
    fn point(&self, rng: &mut Rng) -> P {
        p(self.coord(rng), self.coord(rng))
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// Steiner points strictly inside the region
    pub inside: bool,
    /// Steiner points in holes or outside the outer ring
    pub outside: bool,
    pub holes: bool,
    pub max_n: usize,
}

impl Opts {
    pub const FULL: Opts = Opts {
        inside: true,
        outside: false,
        holes: true,
        max_n: 60,
    };
}

/// does inserting c between ring[i] and ring[i+1] keep everything disjoint?
fn can_insert(ring: &[P], i: usize, c: P, obs: &[Vec<P>]) -> bool {
    let n = ring.len();
    let (a, b) = (ring[i], ring[(i + 1) % n]);
    if c == a || c == b {
        return false;
    }
    for j in 0..n {
        if j == i {
            continue;
        }
        let (u, v) = (ring[j], ring[(j + 1) % n]);
        if v == a {
            // (u,a) and (a,c)
            if orient(u, a, c) == 0 && (on_segment(u, a, c) || on_segment(a, c, u)) {
                return false;
            }
        } else if touch(u, v, a, c) {
            return false;
        }
        if u == b {
            if orient(c, b, v) == 0 && (on_segment(b, v, c) || on_segment(c, b, v)) {
                return false;
            }
        } else if touch(u, v, c, b) {
            return false;
        }
    }
    // (a,c) and (c,b) must not fold onto each other
    if orient(a, c, b) == 0 && !on_segment(a, b, c) {
        return false;
    }
    for o in obs {
        for j in 0..o.len() {
            let (u, v) = (o[j], o[(j + 1) % o.len()]);
            if touch(u, v, a, c) || touch(u, v, c, b) {
                return false;
            }
        }
    }
    true
}

fn grow(rng: &mut Rng, lat: Lat, ring: &mut Vec<P>, target: usize, obs: &[Vec<P>], local: bool) {
    let mut tries = target * 6;
    while ring.len() < target && tries > 0 {
        tries -= 1;
        let n = ring.len();
        let i = rng.below(n);
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        let mode = if local { 1 + rng.below(4) } else { rng.below(6) };
        let c = match mode {
            0 | 5 => lat.point(rng),
            1 | 4 => {
                let d = ((b.x - a.x).abs() + (b.y - a.y).abs()) * 0.8;
                let m = p((a.x + b.x) / 2.0, (a.y + b.y) / 2.0);
                p(
                    lat.snap(m.x + rng.fr(-d, d)),
                    lat.snap(m.y + rng.fr(-d, d)),
                )
            }
            2 => {
                // share a coordinate with an existing vertex
                let v = *rng.pick(ring);
                let w = if local { *rng.pick(ring) } else { lat.point(rng) };
                if rng.chance(1, 2) {
                    p(v.x, w.y)
                } else {
                    p(w.x, v.y)
                }
            }
            _ => {
                // on the edge itself, or a lattice/ulp step off it
                let t = rng.f();
                let m = p(
                    lat.snap(a.x + (b.x - a.x) * t),
                    lat.snap(a.y + (b.y - a.y) * t),
                );
                if rng.chance(1, 2) {
                    m
                } else {
                    p(m.x, lat.snap(a.y + (b.y - a.y) * rng.f()))
                }
            }
        };
        if !ring.contains(&c) && can_insert(ring, i, c, obs) {
            ring.insert(i + 1, c);
        }
    }
}

fn seed_triangle(rng: &mut Rng, lat: Lat) -> Vec<P> {
    loop {
        let t = vec![lat.point(rng), lat.point(rng), lat.point(rng)];
        if orient(t[0], t[1], t[2]) != 0 {
            return t;
        }
    }
}

fn ring_grow(rng: &mut Rng, n: usize) -> (Vec<P>, Lat) {
    let lat = Lat::pick(rng);
    let mut r = seed_triangle(rng, lat);
    let local = rng.chance(1, 4);
    grow(rng, lat, &mut r, n, &[], local);
    (r, lat)
}

fn ring_star(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = n.max(3);
    let mode = rng.below(5);
    let c = rng.fr(100.0, 700.0);
    let mut ang: Vec<f64> = (0..k)
        .map(|i| {
            if mode == 0 {
                i as f64 / k as f64
            } else {
                (i as f64 + rng.f() * 0.95) / k as f64
            }
        })
        .collect();
    ang.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let spike = rng.fr(0.02, 1.0);
    let off = rng.f();
    ang.iter()
        .enumerate()
        .map(|(i, a)| {
            let r = match mode {
                0 | 1 => 350.0,
                2 => {
                    if i % 2 == 0 {
                        350.0
                    } else {
                        350.0 * spike
                    }
                }
                3 => 350.0 * rng.fr(spike, 1.0),
                _ => 350.0 * (spike + (1.0 - spike) * (a * 37.0).sin().abs()),
            };
            let t = (a + off) * std::f64::consts::TAU;
            let v = p(c + r * t.cos(), c + r * t.sin());
            if mode == 0 && i % 3 == 0 {
                p(q(v.x.round()), q(v.y.round()))
            } else {
                p(q(v.x), q(v.y))
            }
        })
        .collect()
}

/// boundary of a random polyomino without diagonal contacts and without holes
fn ring_ortho(rng: &mut Rng, n: usize) -> Vec<P> {
    let g = rng.range(3, 9) as usize;
    let w = g + 2;
    let mut cell = vec![false; w * w];
    let at = |x: usize, y: usize| y * w + x;
    cell[at(1 + rng.below(g), 1 + rng.below(g))] = true;
    let target = 1 + rng.below((n.max(4)).min(g * g));
    let ok = |cell: &[bool]| {
        // no 2x2 block with exactly the two diagonal cells set, complement connected
        for y in 0..w - 1 {
            for x in 0..w - 1 {
                let (a, b, c, d) = (
                    cell[at(x, y)],
                    cell[at(x + 1, y)],
                    cell[at(x, y + 1)],
                    cell[at(x + 1, y + 1)],
                );
                if (a && d && !b && !c) || (b && c && !a && !d) {
                    return false;
                }
            }
        }
        let mut seen = vec![false; w * w];
        let mut st = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((x, y)) = st.pop() {
            let mut go = |x: usize, y: usize| {
                if !cell[at(x, y)] && !seen[at(x, y)] {
                    seen[at(x, y)] = true;
                    st.push((x, y));
                }
            };
            if x > 0 {
                go(x - 1, y)
            }
            if y > 0 {
                go(x, y - 1)
            }
            if x + 1 < w {
                go(x + 1, y)
            }
            if y + 1 < w {
                go(x, y + 1)
            }
        }
        (0..w * w).all(|i| cell[i] || seen[i])
    };
    let mut count = 1;
    for _ in 0..target * 4 {
        if count >= target {
            break;
        }
        let x = 1 + rng.below(g);
        let y = 1 + rng.below(g);
        if cell[at(x, y)] {
            continue;
        }
        if !(cell[at(x - 1, y)] || cell[at(x + 1, y)] || cell[at(x, y - 1)] || cell[at(x, y + 1)])
        {
            continue;
        }
        cell[at(x, y)] = true;
        if ok(&cell) {
            count += 1;
        } else {
            cell[at(x, y)] = false;
        }
    }
    // walk the boundary, cells to the left
    let keep_collinear = rng.chance(1, 2);
    let mut start = (0, 0);
    'o: for y in 0..w {
        for x in 0..w {
            if cell[at(x, y)] {
                start = (x, y);
                break 'o;
            }
        }
    }
    let mut r = vec![];
    // (x, y) corner walking +x along the bottom side of the start cell
    let (mut x, mut y) = (start.0 as i64, start.1 as i64);
    let (mut dx, mut dy) = (1i64, 0i64);
    let set = |x: i64, y: i64| x >= 0 && y >= 0 && cell[at(x as usize, y as usize)];
    let origin = (x, y, dx, dy);
    loop {
        let (px, py) = (x, y);
        let (pdx, pdy) = (dx, dy);
        x += dx;
        y += dy;
        // the two cells ahead of corner (x, y) for direction (dx, dy)
        let (l, rr) = match (dx, dy) {
            (1, 0) => ((x, y), (x, y - 1)),
            (-1, 0) => ((x - 1, y - 1), (x - 1, y)),
            (0, 1) => ((x - 1, y), (x, y)),
            _ => ((x, y - 1), (x - 1, y - 1)),
        };
        if set(rr.0, rr.1) {
            (dx, dy) = (dy, -dx);
        } else if !set(l.0, l.1) {
            (dx, dy) = (-dy, dx);
        }
        let _ = (px, py);
        if keep_collinear || (dx, dy) != (pdx, pdy) {
            r.push(p(x as f64, y as f64));
        }
        if (x, y, dx, dy) == origin {
            break;
        }
    }
    r
}

/// x-monotone: deep basins above and below
fn ring_comb(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = (n / 2).max(2);
    let grid = rng.chance(1, 2);
    let amp = rng.fr(1.0, 300.0);
    let step = rng.fr(0.5, 40.0);
    let co = |v: f64| if grid { v.round() } else { q(v) };
    let style = rng.below(4);
    let mut lower = vec![];
    let mut upper = vec![];
    for i in 0..k {
        let x = i as f64 * step.max(if grid { 1.0 } else { 0.0 });
        let base = match style {
            0 => 0.0,
            1 => (i as f64 * 0.7).sin() * amp,
            2 => (i as f64 - k as f64 / 2.0).powi(2) * amp / (k * k) as f64 * 4.0,
            _ => i as f64 * amp / k as f64,
        };
        lower.push(p(co(x), co(base + rng.f() * amp)));
        upper.push(p(
            co(x + if style == 3 { step * 0.5 } else { 0.0 }),
            co(base + amp + 1.0 + rng.f() * amp * 2.0),
        ));
    }
    upper.reverse();
    lower.extend(upper);
    let mut r = lower;
    r.dedup();
    r
}

fn ring_spiral(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = (n / 2).max(4);
    let turns = rng.fr(0.5, 3.0);
    let gap = rng.fr(10.0, 40.0);
    let th = gap * rng.fr(0.1, 0.8);
    let mut a = vec![];
    let mut b = vec![];
    for i in 0..k {
        let t = i as f64 / (k - 1) as f64 * turns;
        let r = 20.0 + gap * t;
        let (s, c) = (t * std::f64::consts::TAU).sin_cos();
        a.push(p(q(r * c), q(r * s)));
        b.push(p(q((r + th) * c), q((r + th) * s)));
    }
    b.reverse();
    a.extend(b);
    a
}

/// random points untangled by reversing crossing pairs
fn ring_untangle(rng: &mut Rng, n: usize) -> Option<Vec<P>> {
    let lat = Lat::pick(rng);
    let n = n.clamp(3, 40);
    let mut r: Vec<P> = vec![];
    for _ in 0..n * 3 {
        let c = lat.point(rng);
        if r.len() < n && !r.contains(&c) {
            r.push(c);
        }
    }
    let n = r.len();
    for _ in 0..600 {
        let mut hit = false;
        'f: for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if touch(r[i], r[i + 1], r[j], r[(j + 1) % n]) {
                    r[i + 1..=j].reverse();
                    hit = true;
                    break 'f;
                }
            }
        }
        if !hit {
            return Some(r);
        }
    }
    None
}

/// union of the triangles of a strip: thin slivers and near-degenerate turns
fn ring_sliver(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = (n / 2).max(2);
    let w = 10f64.powf(rng.fr(-6.0, 1.0));
    let mut a = vec![];
    let mut b = vec![];
    let mut x = 0.0;
    let mut y = 0.0;
    let slope = rng.fr(-2.0, 2.0);
    for _ in 0..k {
        x += rng.fr(0.1, 10.0);
        y += slope * rng.fr(0.0, 5.0);
        a.push(p(q(x), q(y)));
        b.push(p(q(x + w * rng.fr(-0.5, 0.5)), q(y + w)));
    }
    b.reverse();
    a.extend(b);
    a
}

const BIRD: &str = include_str!("../data/bird.dat");
const HERON: &str = include_str!("../data/nazca_heron.dat");

fn load(s: &str) -> Vec<P> {
    s.lines()
        .filter_map(|l| {
            let v: Vec<f64> = l.split_whitespace().filter_map(|t| t.parse().ok()).collect();
            (v.len() == 2).then(|| p(q(v[0]), q(v[1])))
        })
        .collect()
}

/// a shipped outline, thinned to every k-th vertex
fn ring_real(rng: &mut Rng, n: usize) -> Vec<P> {
    let r = load(if rng.chance(1, 2) { BIRD } else { HERON });
    let keep = (n * 3).max(8).min(r.len());
    let k = (r.len() / keep).max(1);
    let off = rng.below(k);
    r.into_iter()
        .enumerate()
        .filter(|(i, _)| i % k == off)
        .map(|(_, v)| v)
        .collect()
}

pub fn bbox(r: &[P]) -> (P, P) {
    let mut lo = r[0];
    let mut hi = r[0];
    for v in r {
        lo = p(lo.x.min(v.x), lo.y.min(v.y));
        hi = p(hi.x.max(v.x), hi.y.max(v.y));
    }
    (lo, hi)
}

/// is the ring on a small integer lattice?
fn integral(r: &[P]) -> bool {
    r.iter()
        .all(|v| v.x.fract() == 0.0 && v.y.fract() == 0.0 && v.x.abs() < 1e4 && v.y.abs() < 1e4)
}

fn box_point(rng: &mut Rng, c: &Case, grow: f64, int: bool) -> P {
    let (lo, hi) = bbox(&c.outer);
    let (w, h) = (hi.x - lo.x, hi.y - lo.y);
    let x = rng.fr(lo.x - w * grow, hi.x + w * grow);
    let y = rng.fr(lo.y - h * grow, hi.y + h * grow);
    let pts = c.points();
    let m = rng.below(8);
    let v = if int && m < 6 {
        p(x.round(), y.round())
    } else {
        p(q(x), q(y))
    };
    match m {
        // align with an existing point in x or in y
        0 => p(rng.pick(&pts).x, v.y),
        1 => p(v.x, rng.pick(&pts).y),
        2 => p(rng.pick(&pts).x, rng.pick(&pts).y),
        7 => {
            // close to an edge
            let e = c.edges();
            let (i, j) = *rng.pick(&e);
            let (a, b) = (pts[i], pts[j]);
            let t = rng.f();
            let d = 10f64.powf(rng.fr(-9.0, -1.0)) * if rng.chance(1, 2) { 1.0 } else { -1.0 };
            p(
                q(a.x + (b.x - a.x) * t - (b.y - a.y) * d),
                q(a.y + (b.y - a.y) * t + (b.x - a.x) * d),
            )
        }
        _ => v,
    }
}

fn add_holes(rng: &mut Rng, c: &mut Case, want: usize, max_n: usize) {
    let int = integral(&c.outer);
    for _ in 0..want {
        for _ in 0..8 {
            // a small triangle or box around an interior point, then growth against obstacles
            let o = box_point(rng, c, 0.0, int);
            if locate_in(c, o) != Some(Loc::Inside) {
                continue;
            }
            let (lo, hi) = bbox(&c.outer);
            let s = (hi.x - lo.x).min(hi.y - lo.y) * rng.fr(0.02, 0.5);
            let rnd = |v: f64| if int { v.round() } else { q(v) };
            let mut h = match rng.below(3) {
                0 => vec![
                    p(rnd(o.x), rnd(o.y)),
                    p(rnd(o.x + s), rnd(o.y)),
                    p(rnd(o.x + s), rnd(o.y + s)),
                    p(rnd(o.x), rnd(o.y + s)),
                ],
                1 => vec![
                    p(rnd(o.x - s), rnd(o.y)),
                    p(rnd(o.x), rnd(o.y - s)),
                    p(rnd(o.x + s), rnd(o.y)),
                    p(rnd(o.x), rnd(o.y + s)),
                ],
                _ => {
                    let mut t = vec![];
                    for _ in 0..3 {
                        let (a, b) = (rng.fr(-s, s), rng.fr(-s, s));
                        t.push(p(rnd(o.x + a), rnd(o.y + b)));
                    }
                    t
                }
            };
            if !simple_ring(&h)
                || h.iter().any(|v| locate_in(c, *v) != Some(Loc::Inside))
                || c.rings().iter().any(|r| rings_touch(r, &h) || locate(&h, r[0]) != -1)
            {
                continue;
            }
            let obs: Vec<Vec<P>> = c.rings().into_iter().cloned().collect();
            let lat = if int {
                Lat::Grid(hi.x.max(hi.y) as i64)
            } else {
                Lat::Real(1.0)
            };
            let before = h.clone();
            let target = 3 + rng.below(max_n.clamp(1, 12));
            grow(rng, lat, &mut h, target, &obs, true);
            if rng.chance(1, 2) {
                h.reverse();
            }
            c.holes.push(h);
            if admit(c).is_ok() {
                break;
            }
            c.holes.pop();
            c.holes.push(before);
            if admit(c).is_ok() {
                break;
            }
            c.holes.pop();
        }
    }
}

fn add_steiner(rng: &mut Rng, c: &mut Case, want: usize, opts: Opts) {
    let int = integral(&c.outer);
    let mut tries = want * 6;
    let mut have: Vec<P> = c.points();
    while c.steiner.len() < want && tries > 0 {
        tries -= 1;
        let g = if opts.outside { 0.4 } else { 0.0 };
        let v = box_point(rng, c, g, int);
        if have.contains(&v) {
            continue;
        }
        match locate_in(c, v) {
            Some(Loc::Inside) if opts.inside => {}
            Some(Loc::InHole) | Some(Loc::Outside) if opts.outside => {}
            _ => continue,
        }
        have.push(v);
        c.steiner.push(v);
    }
}

fn size(rng: &mut Rng, max_n: usize) -> usize {
    let m = match rng.below(10) {
        0..=3 => 8,
        4..=6 => 16,
        7..=8 => 30,
        _ => max_n,
    };
    3 + rng.below(m.min(max_n).max(1))
}

fn transform(rng: &mut Rng, c: Case) -> Case {
    let mut c = c;
    if rng.chance(1, 2) {
        c.outer.reverse();
    }
    let k = rng.below(c.outer.len());
    c.outer.rotate_left(k);
    if rng.chance(1, 3) {
        c = c.map(|v| p(v.y, v.x));
    }
    if rng.chance(1, 3) {
        c = c.map(|v| p(-v.x, v.y));
    }
    if rng.chance(1, 3) {
        c = c.map(|v| p(v.x, -v.y));
    }
    match rng.below(8) {
        0 => {
            let (s, k) = rng.fr(0.0, std::f64::consts::TAU).sin_cos();
            c = c.map(|v| p(q(v.x * k - v.y * s), q(v.x * s + v.y * k)));
        }
        1 => {
            let f = rng.fr(0.001, 1000.0);
            c = c.map(|v| p(q(v.x * f), q(v.y * f)));
        }
        2 => {
            let f = 10f64.powf(rng.fr(-3.0, 3.0));
            c = c.map(|v| p(v.x, q(v.y * f)));
        }
        3 => {
            let (a, b) = (rng.fr(-1e4, 1e4), rng.fr(-1e4, 1e4));
            c = c.map(|v| p(q(v.x + a.round()), q(v.y + b.round())));
        }
        4 => {
            // power of two: exact
            let f = 2f64.powi(rng.range(-12, 12) as i32);
            c = c.map(|v| p(v.x * f, v.y * f));
        }
        _ => {}
    }
    if rng.chance(1, 4) {
        c = onto_axes(rng, c);
    }
    c
}

/// moves a point onto an axis or two and makes some of the zero coordinates negative
fn onto_axes(rng: &mut Rng, c: Case) -> Case {
    let pts = c.points();
    // one that shares its coordinates with many others
    let a = *rng.pick(&pts);
    let mut most = |f: fn(P) -> f64| {
        (0..4)
            .map(|_| f(*rng.pick(&pts)))
            .max_by_key(|v| pts.iter().filter(|o| f(**o) == *v).count())
            .unwrap_or(0.0)
    };
    let (mx, my) = (most(|v| v.x), most(|v| v.y));
    let (x, y) = match rng.below(6) {
        0 => (0.0, 0.0),
        1 | 2 => (mx, 0.0),
        3 => (0.0, my),
        4 => (mx, my),
        _ => (a.x, a.y),
    };
    let mut s = |v: f64| if v == 0.0 && rng.chance(1, 2) { -0.0 } else { v };
    c.map(|v| p(s(q(v.x - x)), s(q(v.y - y))))
}

pub fn gen(rng: &mut Rng, opts: Opts) -> Case {
    for attempt in 0.. {
        let n = size(rng, opts.max_n);
        let (family, outer) = match rng.below(12) {
            0..=3 => ("grow", ring_grow(rng, n).0),
            4 => ("star", ring_star(rng, n)),
            5 | 6 => ("ortho", ring_ortho(rng, n)),
            7 => ("comb", ring_comb(rng, n)),
            8 => ("spiral", ring_spiral(rng, n)),
            9 => ("sliver", ring_sliver(rng, n)),
            10 => ("real", ring_real(rng, n)),
            _ => match ring_untangle(rng, n) {
                Some(r) => ("untangle", r),
                None => continue,
            },
        };
        let mut c = Case {
            family: family.into(),
            outer,
            holes: vec![],
            steiner: vec![],
            aux: 0,
        };
        if admit(&c).is_err() {
            continue;
        }
        if opts.holes && rng.chance(1, 2) {
            let k = 1 + rng.below(3);
            add_holes(rng, &mut c, k, n);
        }
        if (opts.inside || opts.outside) && rng.chance(2, 3) {
            let m = match rng.below(4) {
                0 => 2,
                1 | 2 => 8,
                _ => opts.max_n,
            };
            let k = 1 + rng.below(m);
            add_steiner(rng, &mut c, k, opts);
        }
        let t = transform(rng, c.clone());
        let mut r = if admit(&t).is_ok() { t } else { c };
        if admit(&r).is_err() {
            assert!(attempt < 1000, "generator cannot make a case");
            continue;
        }
        r.aux = rng.u64();
        return r;
    }
    unreachable!()
}

/// several hundred points from families that stay cheap to admit
pub fn medium(rng: &mut Rng, max: usize, outside: bool) -> Case {
    for _ in 0..50 {
        let n = 60 + rng.below(max.max(61) - 60);
        let kind = *rng.pick(&KINDS);
        let mut c = big(kind, n, rng.u64() >> 16);
        c.family = format!("medium {kind}");
        if outside {
            let k = 1 + rng.below(10);
            let want = c.steiner.len() + k;
            add_steiner(
                rng,
                &mut c,
                want,
                Opts {
                    inside: false,
                    outside: true,
                    holes: false,
                    max_n: 0,
                },
            );
        }
        let t = transform(rng, c.clone());
        let mut r = if admit(&t).is_ok() { t } else { c };
        if admit(&r).is_ok() {
            r.aux = rng.u64();
            return r;
        }
    }
    gen(rng, Opts::FULL)
}

const EXTREME: [&str; 7] = [
    "tiny scale",
    "huge scale",
    "ulp lattice",
    "large offset",
    "anisotropic",
    "mixed magnitudes",
    "sheared flat",
];

pub fn extreme_tag(family: &str) -> Option<&'static str> {
    EXTREME.iter().copied().find(|t| family.starts_with(t))
}

fn is_f32() -> bool {
    std::mem::size_of::<Float>() == 4
}

/// coordinates outside of the ordinary range
pub fn extreme(rng: &mut Rng) -> Case {
    let (lo, hi, mant) = if is_f32() { (-50, 50, 23) } else { (-110, 110, 52) };
    loop {
        let outside = rng.chance(1, 6);
        let mut base = gen(
            rng,
            Opts {
                inside: true,
                outside,
                holes: true,
                max_n: 40,
            },
        );
        let mode = rng.below(EXTREME.len());
        let pts = base.points();
        let grid = integral(&pts);
        let m = pts.iter().fold(1e-300f64, |m, v| m.max(v.x.abs()).max(v.y.abs()));
        let c = match mode {
            0 => {
                let s = 2f64.powi(rng.range(lo, -20) as i32) / 2f64.powi(m.log2().ceil() as i32);
                base.map(|v| p(v.x * s, v.y * s))
            }
            1 => {
                let s = 2f64.powi(rng.range(20, hi) as i32) / 2f64.powi(m.log2().ceil() as i32);
                base.map(|v| p(v.x * s, v.y * s))
            }
            2 => {
                // neighbouring floating point numbers: integer coordinates times one ulp
                if !grid || m > 1000.0 {
                    continue;
                }
                let e = rng.range(-8, 12) as i32;
                let (bx, by) = (2f64.powi(e), 2f64.powi(rng.range(-8, 12) as i32));
                let (ux, uy) = (bx * 2f64.powi(-mant), by * 2f64.powi(-mant));
                let mn = pts.iter().fold(p(0.0, 0.0), |a, v| p(a.x.min(v.x), a.y.min(v.y)));
                let (sx, sy) = (
                    if rng.chance(1, 3) { -1.0 } else { 1.0 },
                    if rng.chance(1, 3) { -1.0 } else { 1.0 },
                );
                base.map(|v| {
                    p(
                        sx * (bx + (v.x - mn.x) * ux),
                        sy * (by + (v.y - mn.y) * uy),
                    )
                })
            }
            3 => {
                let o = |rng: &mut Rng| {
                    let s = if rng.chance(1, 2) { 1.0 } else { -1.0 };
                    let k = if is_f32() { 16 } else { 36 };
                    s * 2f64.powi(rng.range(4, k) as i32) * (1.0 + (rng.f() * 8.0).floor() / 8.0)
                };
                let (a, b) = (o(rng), if rng.chance(1, 3) { 0.0 } else { o(rng) });
                base.map(|v| p(q(v.x + a), q(v.y + b)))
            }
            4 => {
                let k = if is_f32() { 12 } else { 25 };
                let (a, b) = (
                    2f64.powi(rng.range(-k, k) as i32),
                    2f64.powi(rng.range(-k, k) as i32),
                );
                base.map(|v| p(v.x * a, v.y * b))
            }
            5 => {
                // a power law keeps the order of the coordinates along each axis
                let e = rng.fr(2.0, if is_f32() { 4.0 } else { 8.0 });
                let f = |v: f64| q(v.abs().powf(e) * v.signum() / m.powf(e - 1.0));
                if rng.chance(1, 2) {
                    base.map(|v| p(f(v.x), v.y))
                } else {
                    base.map(|v| p(f(v.x), f(v.y)))
                }
            }
            _ => {
                let k = if is_f32() { 10 } else { 30 };
                let s = 2f64.powi(-(rng.range(4, k) as i32));
                let t = rng.fr(-2.0, 2.0);
                base.map(|v| p(v.x, q(v.x * t + v.y * s)))
            }
        };
        if admit(&c).is_err() {
            continue;
        }
        base = c;
        base.family = EXTREME[mode].into();
        base.aux = rng.u64();
        return base;
    }
}

/// anything at all
pub fn raw(rng: &mut Rng) -> Case {
    let lat = match rng.below(6) {
        0 => Lat::Grid(2),
        1 => Lat::Grid(4),
        2 => Lat::Grid(8),
        3 => Lat::Grid(30),
        4 => Lat::Real(1.0),
        _ => Lat::Real(800.0),
    };
    let mode = rng.below(8);
    let special = [
        f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        -0.0,
        0.0,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        5e-324,
        1e300,
        -1e300,
        1e30,
    ];
    let wild = mode == 0;
    let mut pt = |rng: &mut Rng| {
        let v = lat.point(rng);
        if wild && rng.chance(1, 6) {
            let s = q(*rng.pick(&special));
            if rng.chance(1, 2) {
                p(s, v.y)
            } else {
                p(v.x, s)
            }
        } else {
            v
        }
    };
    let ring = |rng: &mut Rng, n: usize, pt: &mut dyn FnMut(&mut Rng) -> P| -> Vec<P> {
        (0..n).map(|_| pt(rng)).collect()
    };
    let mut c = if mode < 5 {
        let n = rng.below(14);
        let mut c = Case {
            family: "raw".into(),
            outer: ring(rng, n, &mut pt),
            holes: vec![],
            steiner: vec![],
            aux: 0,
        };
        for _ in 0..rng.below(3) {
            let n = rng.below(8);
            c.holes.push(ring(rng, n, &mut pt));
        }
        let m = rng.below(12);
        c.steiner = ring(rng, m, &mut pt);
        c
    } else {
        // a valid case with a defect
        let outside = rng.chance(1, 3);
        let mut c = gen(
            rng,
            Opts {
                inside: true,
                outside,
                holes: true,
                max_n: 30,
            },
        );
        c.family = "broken".into();
        let k = 1 + rng.below(3);
        for _ in 0..k {
            let pts = c.points();
            let e = c.edges();
            match rng.below(7) {
                0 => c.steiner.push(*rng.pick(&pts)),
                1 => {
                    let (i, j) = *rng.pick(&e);
                    let t = *rng.pick(&[0.5, 0.25, 0.75]);
                    c.steiner.push(p(
                        q(pts[i].x + (pts[j].x - pts[i].x) * t),
                        q(pts[i].y + (pts[j].y - pts[i].y) * t),
                    ));
                }
                2 => {
                    let i = rng.below(c.outer.len());
                    let j = rng.below(c.outer.len());
                    c.outer.swap(i, j);
                }
                3 => {
                    let i = rng.below(c.outer.len());
                    c.outer[i] = *rng.pick(&pts);
                }
                4 => {
                    let v = *rng.pick(&pts);
                    let s = rng.fr(0.0, 50.0);
                    c.holes.push(vec![v, p(q(v.x + s), v.y), p(v.x, q(v.y + s))]);
                }
                5 => {
                    let h = c.outer.clone();
                    c.holes.push(h);
                }
                _ => {
                    let i = rng.below(c.outer.len());
                    let s = *rng.pick(&special);
                    c.outer[i].x = q(s);
                }
            }
        }
        c
    };
    c.aux = rng.u64();
    c
}

pub const KINDS: [&str; 19] = [
    "comb", "convex", "parabola", "parabola_down", "bowl", "dome", "strip", "strip_left", "hub",
    "hull", "grid_holes", "lattice", "cloud", "stairs", "spiral", "saw", "annulus", "star",
    "holes_cloud",
];

pub fn kind_name(k: &str) -> &'static str {
    let k = k.strip_suffix("+out").unwrap_or(k);
    KINDS.iter().copied().find(|x| *x == k).unwrap_or("?")
}

/// families on which the algorithm is quadratic stay smaller
fn kind_cap(kind: &str) -> usize {
    match kind {
        "hull" => 2_500,
        "bowl" | "dome" => 5_000,
        "comb" | "parabola" | "parabola_down" => 8_000,
        _ => 90_000,
    }
}

pub fn big_input(rng: &mut Rng, thorough: bool) -> Input {
    let kind = *rng.pick(&KINDS);
    let cap = kind_cap(kind) * if thorough { 2 } else { 1 };
    let n = match rng.below(4) {
        0 => 1000 + rng.below(9_000.min(cap - 1000)),
        1 => cap,
        _ => cap / 10 + 1000 + rng.below(cap - cap / 10 - 1000),
    };
    Input::Big {
        kind: kind.into(),
        n,
        seed: rng.u64() >> 16,
    }
}

/// a large input for the mix of an ordinary property: every order of magnitude from a few hundred
/// points to `max` is equally likely, and where `max` allows it some have more than 65 536
pub fn big_mix(rng: &mut Rng, max: usize, outside: bool) -> Input {
    let mut kind = *rng.pick(&KINDS);
    // with debug assertions every legalization looks at the whole mesh
    let max = if cfg!(debug_assertions) { max.min(1500) } else { max };
    // and points outside make some families quadratic
    let max = if outside { max.min(6000) } else { max };
    let n = if max > 66_000 && rng.chance(1, 12) {
        while kind_cap(kind) < 66_000 {
            kind = *rng.pick(&KINDS);
        }
        // rings and point counts on both sides of the limits of 16 bits
        66_000 + rng.below(max - 66_000)
    } else {
        let cap = kind_cap(kind).min(max).min(12_000);
        (200.0 * (cap as f64 / 200.0).powf(rng.f())) as usize
    };
    Input::Big {
        kind: if outside { format!("{kind}+out") } else { kind.into() },
        n,
        seed: rng.u64() >> 16,
    }
}

/// Families that scale. Their members are built to be valid; the exact domain test still decides.
/// The suffix `+out` adds Steiner points outside of the region.
pub fn big(kind: &str, n: usize, seed: u64) -> Case {
    let (kind, out) = match kind.strip_suffix("+out") {
        Some(k) => (k, true),
        None => (kind, false),
    };
    let mut rng = Rng::new(seed ^ 0xB16);
    let r = &mut rng;
    let nf = n as f64;
    let mut c = Case {
        family: format!("big {kind}"),
        outer: vec![],
        holes: vec![],
        steiner: vec![],
        aux: 0,
    };
    let flip = r.below(8);
    let boxed = |c: &mut Case, s: f64| {
        c.outer = vec![p(-s, -s), p(s, -s), p(s, s), p(-s, s)];
    };
    match kind {
        "comb" => {
            let h = r.fr(1.0, 1000.0);
            for i in 0..n {
                c.outer.push(p(i as f64, if i % 2 == 0 { 0.0 } else { h + i as f64 * 0.001 }));
            }
            c.outer.push(p(nf, 2000.0 + nf));
            c.outer.push(p(-1.0, 2000.5 + nf));
        }
        "saw" => {
            // teeth pointing alternately up and down on both sides
            let k = n / 2;
            for i in 0..k {
                let x = i as f64;
                c.outer.push(p(x, if i % 2 == 0 { -5.0 - r.f() } else { -0.5 + 0.4 * r.f() }));
            }
            for i in (0..k).rev() {
                let x = i as f64 + 0.25;
                c.outer.push(p(x, if i % 2 == 0 { 5.0 + r.f() } else { 0.5 + 0.4 * r.f() }));
            }
        }
        "convex" => {
            let o = r.f();
            for i in 0..n {
                let t = (i as f64 + o) / nf * std::f64::consts::TAU;
                c.outer.push(p(1e6 * t.cos(), 1e6 * t.sin()));
            }
        }
        "parabola" | "parabola_down" => {
            let s = if kind == "parabola" { 1.0 } else { -1.0 };
            for i in 0..n {
                let x = i as f64 / nf * 2.0 - 1.0;
                c.outer.push(p(x, s * x * x));
            }
            c.outer.push(p(0.000_123_4, s * 5.0));
        }
        "bowl" | "dome" => {
            boxed(&mut c, 10.0);
            let s = if kind == "bowl" { 1.0 } else { -1.0 };
            for i in 0..n {
                let x = i as f64 / nf * 2.0 - 1.0;
                c.steiner.push(p(x, s * x * x));
            }
        }
        "strip" | "strip_left" => {
            // one long edge forced through a band of points
            let s = if kind == "strip" { 1.0 } else { -1.0 };
            c.outer = vec![p(0.0, 0.0), p(s * nf * 2.0, -1.0), p(s * (nf + 0.5), nf + 3.0)];
            for i in 30..n.max(31) - 1 {
                let t = i as f64;
                let d = 2.0 + (r.f() * 11.0).floor();
                c.steiner.push(p(s * (t + d), t - d + 0.001 * r.f()));
            }
        }
        "hub" => {
            c.outer = vec![p(0.0, 0.0), p(nf, -nf), p(nf, nf), p(0.5, nf * 1.5)];
            for i in 1..n {
                let t = i as f64 / nf * 3.0;
                let v = p(nf * 0.9 * t.sin(), -nf * 0.9 * t.cos() + nf * 0.2);
                if locate(&c.outer, v) == 1 {
                    c.steiner.push(v);
                }
            }
        }
        "hull" => {
            c.outer = vec![p(-0.1, 1.2), p(-1.0, -5.0), p(1.3, -5.0), p(1.2, 0.5)];
            for i in 1..n {
                let x = i as f64 / nf;
                c.steiner.push(p(x, 1.0 - x * x));
            }
        }
        "grid_holes" => {
            // k x k small holes
            let k = ((n as f64 / 4.0).sqrt() as usize).max(1);
            boxed(&mut c, k as f64 * 10.0 + 20.0);
            for y in 0..k {
                for x in 0..k {
                    let (cx, cy) = (x as f64 * 10.0, y as f64 * 10.0 + r.f());
                    let m = 3 + r.below(3);
                    let o = r.f();
                    let mut h: Vec<P> = (0..m)
                        .map(|i| {
                            let t = (i as f64 + o) / m as f64 * std::f64::consts::TAU;
                            p(cx + 3.0 * t.cos(), cy + 3.0 * t.sin())
                        })
                        .collect();
                    if r.chance(1, 2) {
                        h.reverse();
                    }
                    c.holes.push(h);
                }
            }
        }
        "lattice" => {
            // cocircular everywhere
            let k = (nf.sqrt() as usize).max(2);
            boxed(&mut c, k as f64 + 3.0);
            for y in 0..k {
                for x in 0..k {
                    c.steiner.push(p(x as f64, y as f64));
                }
            }
        }
        "cloud" => {
            boxed(&mut c, 1000.0);
            let mut seen = std::collections::HashSet::new();
            while c.steiner.len() < n {
                let v = p(q(r.fr(-999.0, 999.0)), q(r.fr(-999.0, 999.0)));
                if seen.insert((v.x.to_bits(), v.y.to_bits())) {
                    c.steiner.push(v);
                }
            }
        }
        "star" | "annulus" => {
            // two rings around a centre, or one
            let two = kind == "annulus";
            let k = (if two { n / 2 } else { n }).max(5);
            let ring = |r: &mut Rng, lo: f64, hi: f64| -> Vec<P> {
                let o = r.f();
                (0..k)
                    .map(|i| {
                        let t = (i as f64 + o) / k as f64 * std::f64::consts::TAU;
                        let d = r.fr(lo, hi);
                        p(d * t.cos(), d * t.sin())
                    })
                    .collect()
            };
            c.outer = ring(r, 900.0, 1000.0);
            if two {
                // the chords of a coarse inner ring lie closer to the centre, never further out
                let h = ring(r, 700.0, 800.0);
                c.outer = ring(r, 1000.0 + 3000.0 / k as f64, 1100.0 + 3000.0 / k as f64);
                c.holes.push(h);
            }
        }
        "holes_cloud" => {
            // small holes with Steiner points between them
            let k = ((n as f64 / 7.0).sqrt() as usize).max(1);
            boxed(&mut c, k as f64 * 10.0 + 20.0);
            let o = k as f64 * 5.0;
            for y in 0..k {
                for x in 0..k {
                    let (cx, cy) = (x as f64 * 10.0 - o + r.f(), y as f64 * 10.0 - o + r.f());
                    let w = r.fr(0.5, 3.0);
                    c.holes.push(vec![p(cx - w, cy - w), p(cx + w, cy - w), p(cx, cy + w)]);
                    for _ in 0..4 {
                        c.steiner.push(p(cx + 4.2 + 0.5 * r.f(), cy + r.fr(-4.9, 4.9)));
                    }
                }
            }
        }
        "stairs" => {
            let k = n / 2;
            for i in 0..k {
                c.outer.push(p(i as f64, i as f64 * 0.5));
                c.outer.push(p(i as f64 + 1.0, i as f64 * 0.5));
            }
            c.outer.push(p(k as f64, k as f64 + 10.0));
            c.outer.push(p(-5.0, k as f64 + 10.5));
        }
        _ => {
            // spiral corridor
            let k = (n / 2).max(4);
            let turns = 1.0 + k as f64 / 60.0;
            let mut b = vec![];
            for i in 0..k {
                let t = i as f64 / (k - 1) as f64 * turns;
                let d = 20.0 + 10.0 * t;
                let (s, co) = (t * std::f64::consts::TAU).sin_cos();
                c.outer.push(p(d * co, d * s));
                b.push(p((d + 4.0) * co, (d + 4.0) * s));
            }
            b.reverse();
            c.outer.extend(b);
        }
    }
    let f = |v: P| {
        let v = match flip & 3 {
            0 => v,
            1 => p(-v.x, v.y),
            2 => p(v.x, -v.y),
            _ => p(v.y, v.x),
        };
        p(q(v.x), q(v.y))
    };
    // the order of the sweep matters to most families: turn only half of them
    let mut c = if flip < 4 { c } else { c.map(f) };
    c = c.map(|v| p(q(v.x), q(v.y)));
    if r.chance(1, 2) {
        c.outer.reverse();
    }
    if out {
        let (lo, hi) = bbox(&c.outer);
        let w = (hi.x - lo.x).max(hi.y - lo.y);
        let m = 1 + r.below((n / 6).max(1));
        for _ in 0..m {
            let d = w * 10f64.powf(r.fr(-3.0, 0.0));
            let (x, y) = (r.fr(lo.x - d, hi.x + d), r.fr(lo.y - d, hi.y + d));
            c.steiner.push(match r.below(4) {
                0 => p(q(lo.x - d), q(y)),
                1 => p(q(hi.x + d), q(y)),
                2 => p(q(x), q(lo.y - d)),
                _ => p(q(x), q(hi.y + d)),
            });
        }
        for h in &c.holes {
            if r.chance(1, 3) {
                let s = h.iter().fold(p(0.0, 0.0), |s, v| p(s.x + v.x, s.y + v.y));
                let k = h.len() as f64;
                c.steiner.push(p(q(s.x / k), q(s.y / k)));
            }
        }
        r.shuffle(&mut c.steiner);
    }
    c.aux = r.u64();
    c
}

/// one to three local changes; the caller tests the domain
pub fn mutate(rng: &mut Rng, base: &Case, raw: bool) -> Case {
    let mut c = base.clone();
    let k = 1 + rng.below(3);
    for _ in 0..k {
        mutate_once(rng, &mut c, raw);
    }
    c.aux = rng.u64();
    if !c.family.starts_with("mut ") {
        c.family = format!("mut {}", c.family);
    }
    c
}

fn ring_mut<'a>(rng: &mut Rng, c: &'a mut Case) -> &'a mut Vec<P> {
    let k = rng.below(c.holes.len() + 1);
    if k == 0 {
        &mut c.outer
    } else {
        &mut c.holes[k - 1]
    }
}

fn step_of(c: &Case) -> f64 {
    if integral(&c.points()) {
        1.0
    } else {
        0.0
    }
}

fn moved(rng: &mut Rng, c: &Case, v: P) -> P {
    let st = step_of(c);
    let pts = c.points();
    let (lo, hi) = bbox(&pts);
    let w = (hi.x - lo.x).max(hi.y - lo.y);
    match rng.below(7) {
        0 => p(rng.pick(&pts).x, v.y),
        1 => p(v.x, rng.pick(&pts).y),
        2 => {
            let a = *rng.pick(&pts);
            p(q((v.x + a.x) / 2.0), q((v.y + a.y) / 2.0))
        }
        3 | 4 if st > 0.0 => p(v.x + rng.range(-1, 1) as f64, v.y + rng.range(-1, 1) as f64),
        3 | 4 => {
            let d = w * 10f64.powf(rng.fr(-6.0, -0.5));
            p(q(v.x + rng.fr(-d, d)), q(v.y + rng.fr(-d, d)))
        }
        5 => {
            let v = p(rng.fr(lo.x, hi.x), rng.fr(lo.y, hi.y));
            if st > 0.0 {
                p(v.x.round(), v.y.round())
            } else {
                p(q(v.x), q(v.y))
            }
        }
        _ => {
            // onto the line through two others
            let (a, b) = (*rng.pick(&pts), *rng.pick(&pts));
            let t = rng.fr(-1.0, 2.0);
            let v = p(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t);
            if st > 0.0 {
                p(v.x.round(), v.y.round())
            } else {
                p(q(v.x), q(v.y))
            }
        }
    }
}

fn mutate_once(rng: &mut Rng, c: &mut Case, raw: bool) {
    if c.points().is_empty() {
        c.outer.push(p(0.0, 0.0));
        return;
    }
    let snapshot = c.clone();
    match rng.below(13) {
        0..=2 => {
            let r = ring_mut(rng, c);
            if r.is_empty() {
                return;
            }
            let i = rng.below(r.len());
            let v = moved(rng, &snapshot, r[i]);
            r[i] = v;
        }
        3 | 4 => {
            if c.steiner.is_empty() {
                let pts = c.points();
                let v = *rng.pick(&pts);
                let v = moved(rng, &snapshot, v);
                c.steiner.push(v);
            } else {
                let i = rng.below(c.steiner.len());
                c.steiner[i] = moved(rng, &snapshot, c.steiner[i]);
            }
        }
        5 => {
            let r = ring_mut(rng, c);
            if r.len() < 2 {
                return;
            }
            let i = rng.below(r.len());
            let (a, b) = (r[i], r[(i + 1) % r.len()]);
            let t = rng.f();
            let m = p(q(a.x + (b.x - a.x) * t), q(a.y + (b.y - a.y) * t));
            let v = moved(rng, &snapshot, m);
            r.insert(i + 1, v);
        }
        6 => {
            let min = if raw { 1 } else { 3 };
            let r = ring_mut(rng, c);
            if r.len() > min {
                let i = rng.below(r.len());
                r.remove(i);
            }
        }
        7 => {
            let pts = c.points();
            let (a, b, d) = (*rng.pick(&pts), *rng.pick(&pts), *rng.pick(&pts));
            let v = p(q((a.x + b.x + d.x) / 3.0), q((a.y + b.y + d.y) / 3.0));
            let v = if rng.chance(1, 3) { moved(rng, &snapshot, v) } else { v };
            c.steiner.push(v);
        }
        8 => {
            if !c.steiner.is_empty() {
                let i = rng.below(c.steiner.len());
                c.steiner.remove(i);
            } else if !c.holes.is_empty() {
                let i = rng.below(c.holes.len());
                c.holes.remove(i);
            }
        }
        9 => {
            let m = rng.below(4);
            *c = c.map(|v| match m {
                0 => p(-v.x, v.y),
                1 => p(v.x, -v.y),
                2 => p(v.y, v.x),
                _ => p(v.x, q(v.y * 4.0)),
            });
        }
        11 => *c = onto_axes(rng, c.clone()),
        10 => {
            let v = {
                let pts = c.points();
                *rng.pick(&pts)
            };
            let o = moved(rng, &snapshot, v);
            let (lo, hi) = bbox(&snapshot.points());
            let s = (hi.x - lo.x).max(hi.y - lo.y) * rng.fr(0.01, 0.2);
            let s = if step_of(&snapshot) > 0.0 { s.round().max(1.0) } else { s };
            c.holes.push(vec![
                o,
                p(q(o.x + s), o.y),
                p(q(o.x + s), q(o.y + s)),
            ]);
        }
        _ => {
            let r = ring_mut(rng, c);
            if rng.chance(1, 2) {
                r.reverse();
            } else if !r.is_empty() {
                let k = rng.below(r.len());
                r.rotate_left(k);
            }
        }
    }
}
