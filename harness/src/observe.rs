//! Properties decided from what an observer sees: the protocol of the callbacks, the state of the
//! mesh at every event, the diagnostic methods, and lookups with arbitrary ids.

use crate::case::*;
use crate::exact::*;
use crate::input::Input;
use crate::props::Ctx;
use crate::rng::Rng;
use crate::tri::*;
use poly2tri_rs::{Edge, Float, Observer, Point, PointId, Sweeper, TriangleId};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
enum Phase {
    Between,
    InPoint(usize),
    Done,
    Finalized,
}

#[derive(Default, Clone, Copy)]
struct What {
    protocol: bool,
    mesh: bool,
    legal: bool,
    front: bool,
    delta: bool,
}

/// a front node kept from an earlier event: what the front says about it now, as the point ids
/// of the node itself, the next and the previous one (the node's type cannot be named here)
type Ask3 = Box<dyn Fn(&Sweeper) -> [Option<usize>; 3]>;

struct Kept {
    id: usize,
    at: (Float, Float),
    ask: Ask3,
}

fn keep(ctx: &Sweeper, k: usize) -> Option<Kept> {
    let n = ctx.advancing_front.nth(k)?;
    let nid = n.get_node_id();
    Some(Kept {
        id: n.point_id().as_usize(),
        at: (n.point().x, n.point().y),
        ask: Box::new(move |c: &Sweeper| {
            let f = &c.advancing_front;
            [
                f.get_node_with_id(nid).map(|m| m.point_id().as_usize()),
                f.locate_next_node(nid).map(|m| m.point_id().as_usize()),
                f.locate_prev_node(nid).map(|m| m.point_id().as_usize()),
            ]
        }),
    })
}

fn corners(t: [PointId; 3]) -> [usize; 3] {
    let mut v = t.map(|q| q.as_usize());
    v.sort_unstable();
    v
}

struct Watch {
    what: What,
    err: Option<String>,
    /// builder order
    pts: Vec<P>,
    /// expected sweep order
    sweep: Vec<usize>,
    next: usize,
    last: Option<usize>,
    phase: Phase,
    legalizing: Option<usize>,
    /// ring edges (lower, upper) still to be reported
    todo: HashSet<(usize, usize)>,
    done: HashSet<(usize, usize)>,
    rotations: usize,
    events: usize,
    result: Vec<[usize; 3]>,
    probe: Rng,
    kept: Vec<Kept>,
    /// lookups of nodes that had left the front
    gone: usize,
    /// a legalization since the last point or edge event
    loose: bool,
    /// the rotation of the current legalization step
    rotating: Option<(usize, usize)>,
    steps: usize,
    /// corners of every triangle as far as the observer was told
    model: Option<Vec<[usize; 3]>>,
    silent: Option<Vec<[usize; 3]>>,
    followed: usize,
}

fn lower(a: P, b: P) -> bool {
    a.y < b.y || (a.y == b.y && a.x < b.x)
}

impl Watch {
    fn new(c: &Case, plan: &[Op], what: What) -> Watch {
        let cp = c.points();
        let ord = order(c, plan);
        let mut back = vec![0; ord.len()];
        for (b, k) in ord.iter().enumerate() {
            back[*k] = b;
        }
        let pts: Vec<P> = ord.iter().map(|k| cp[*k]).collect();
        let mut sweep: Vec<usize> = (0..pts.len()).collect();
        sweep.sort_by(|a, b| {
            let (a, b) = (pts[*a], pts[*b]);
            (a.y, a.x).partial_cmp(&(b.y, b.x)).unwrap()
        });
        let todo = c
            .edges()
            .into_iter()
            .map(|(a, b)| {
                let (a, b) = (back[a], back[b]);
                if lower(pts[a], pts[b]) {
                    (a, b)
                } else {
                    (b, a)
                }
            })
            .collect();
        Watch {
            what,
            err: None,
            pts,
            sweep,
            next: 1,
            last: None,
            phase: Phase::Between,
            legalizing: None,
            todo,
            done: HashSet::new(),
            rotations: 0,
            events: 0,
            result: vec![],
            probe: Rng::new(c.aux ^ 0x0B5E),
            kept: vec![],
            gone: 0,
            loose: false,
            rotating: None,
            steps: 0,
            model: None,
            silent: None,
            followed: 0,
        }
    }

    fn fail(&mut self, m: String) {
        if self.err.is_none() {
            self.err = Some(m);
        }
    }

    fn name(&self, i: usize) -> String {
        match self.pts.get(i) {
            Some(q) => format!("({:?}, {:?})", q.x, q.y),
            None => format!("artificial point {i}"),
        }
    }

    fn at(&self, ctx: &Sweeper, id: PointId) -> P {
        match self.pts.get(id.as_usize()) {
            Some(q) => *q,
            None => {
                let v = ctx.points.get_point(id).expect("a triangle with an unknown point");
                p(v.x as f64, v.y as f64)
            }
        }
    }

    fn event(&mut self, ctx: &Sweeper, when: &str) {
        self.events += 1;
        if self.err.is_some() {
            return;
        }
        if self.what.protocol && self.phase != Phase::Finalized && !ctx.result.is_empty() {
            self.fail(format!("{when}: the result is filled before the end"));
        }
        if self.what.delta {
            self.follow(ctx, when);
        }
        if self.what.front && self.probe.chance(400, self.pts.len().max(400)) {
            if let Err(e) = self.front_lookups(ctx) {
                self.fail(format!("{when}: {e}"));
            }
        }
        // looking at everything is linear: of the events of a large input some two hundred
        let n = self.pts.len();
        let end = matches!(self.phase, Phase::Done | Phase::Finalized) || self.next + 1 >= n;
        if n > 200 && !end && !self.probe.chance(200, n) {
            return;
        }
        if self.what.mesh {
            if let Err(e) = self.mesh(ctx) {
                self.fail(format!("{when}: {e}"));
            }
        }
        if self.what.legal {
            if let Err(e) = self.legal(ctx, true) {
                self.fail(format!("{when}: {e}"));
            }
        }
    }

    /// the mesh and its front are a consistent triangulation of what was swept
    fn mesh(&self, ctx: &Sweeper) -> R {
        let n = ctx.triangles.len();
        let tri: Vec<[usize; 3]> = ctx
            .triangles
            .iter()
            .map(|(_, t)| t.points.map(|q| q.as_usize()))
            .collect();
        if tri.len() != n {
            return Err("the triangle store's length is not the number of its triangles".into());
        }
        let mut open: HashMap<(usize, usize), usize> = HashMap::new();
        let mut used: HashSet<usize> = HashSet::new();
        let mut constrained: HashSet<(usize, usize)> = HashSet::new();
        for (id, t) in ctx.triangles.iter() {
            let k = id.as_usize();
            let v = tri[k];
            if v[0] == v[1] || v[1] == v[2] || v[0] == v[2] {
                return Err(format!("triangle {k} repeats a corner"));
            }
            used.extend(v);
            let q = t.points.map(|x| self.at(ctx, x));
            if orient(q[0], q[1], q[2]) < 0 {
                return Err(format!(
                    "the triangle {} {} {} is clockwise",
                    self.name(v[0]),
                    self.name(v[1]),
                    self.name(v[2])
                ));
            }
            for i in 0..3 {
                let (a, b) = (v[(i + 1) % 3], v[(i + 2) % 3]);
                let nb = t.neighbors[i];
                if t.is_constrained(i) {
                    constrained.insert((a.min(b), a.max(b)));
                }
                if nb.invalid() {
                    if open.insert((a, b), k).is_some() {
                        return Err(format!("two open sides {} {}", self.name(a), self.name(b)));
                    }
                    continue;
                }
                let Some(o) = ctx.triangles.get(nb) else {
                    return Err(format!("triangle {k} has an unknown neighbour"));
                };
                let w = tri[nb.as_usize()];
                let Some(j) = (0..3).find(|j| w[(*j + 1) % 3] == b && w[(*j + 2) % 3] == a) else {
                    return Err(format!(
                        "the triangles on both sides of {} {} do not share that edge",
                        self.name(a),
                        self.name(b)
                    ));
                };
                if o.neighbors[j] != id {
                    return Err(format!(
                        "across {} {} the neighbour relation is not mutual",
                        self.name(a),
                        self.name(b)
                    ));
                }
                if o.is_constrained(j) != t.is_constrained(i) {
                    return Err(format!(
                        "{} {} is constrained on one side only",
                        self.name(a),
                        self.name(b)
                    ));
                }
            }
        }
        // constrained exactly where a ring edge was reported
        let want: HashSet<(usize, usize)> =
            self.done.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
        if let Some((a, b)) = constrained.difference(&want).next() {
            return Err(format!("{} {} is constrained but no ring edge", self.name(*a), self.name(*b)));
        }
        if let Some((a, b)) = want.difference(&constrained).next() {
            return Err(format!(
                "the ring edge {} {} was reported but is not constrained in the mesh",
                self.name(*a),
                self.name(*b)
            ));
        }
        // all points swept so far and no others (besides the two artificial ones)
        let swept: HashSet<usize> = self.sweep[..self.next].iter().copied().collect();
        let real: HashSet<usize> = used.iter().copied().filter(|v| *v < self.pts.len()).collect();
        if swept != real {
            return Err(format!("{} points are swept, {} are in the mesh", swept.len(), real.len()));
        }
        // front
        let front: Vec<(usize, P, Option<TriangleId>)> = ctx
            .advancing_front
            .iter()
            .map(|n| {
                let q = n.point();
                (n.point_id().as_usize(), p(q.x as f64, q.y as f64), n.triangle)
            })
            .collect();
        if front.len() < 3 {
            return Err(format!("the front has {} nodes", front.len()));
        }
        for w in front.windows(2) {
            if !((w[0].1.x, w[0].1.y) < (w[1].1.x, w[1].1.y)) {
                return Err(format!(
                    "front nodes out of order: {} before {}",
                    self.name(w[0].0),
                    self.name(w[1].0)
                ));
            }
            let Some(t) = w[0].2 else {
                return Err(format!("the front node {} has no triangle", self.name(w[0].0)));
            };
            // the open side lies above: walking left to right it has the mesh on its right
            match open.get(&(w[1].0, w[0].0)) {
                Some(k) if *k == t.as_usize() => {}
                Some(_) => {
                    return Err(format!(
                        "the front node {} refers to a triangle that is not below its side",
                        self.name(w[0].0)
                    ))
                }
                None => {
                    return Err(format!(
                        "the front side {} {} is no open side of the mesh",
                        self.name(w[0].0),
                        self.name(w[1].0)
                    ))
                }
            }
        }
        for f in &front {
            if let Some(q) = self.pts.get(f.0) {
                if *q != f.1 {
                    return Err(format!("the front node of {} is at {:?}", self.name(f.0), f.1));
                }
            }
        }
        let m = self.pts.len();
        let (head, tail) = (front[0], front[front.len() - 1]);
        if head.0 < m || tail.0 < m || front[1..front.len() - 1].iter().any(|f| f.0 >= m) {
            return Err("the front does not run from one artificial point to the other".into());
        }
        // one more open side closes the loop: the base
        if open.len() != front.len() || !open.contains_key(&(head.0, tail.0)) {
            return Err(format!(
                "{} open sides for {} front nodes",
                open.len(),
                front.len()
            ));
        }
        // Euler
        let v = used.len();
        if n + open.len() + 2 != 2 * v {
            return Err(format!("{n} triangles over {v} points with {} open sides", open.len()));
        }
        Ok(())
    }

    /// every front node refers to the triangle below the side to the next node
    fn front_below(&self, ctx: &Sweeper) -> R {
        let nodes: Vec<(PointId, Option<TriangleId>)> =
            ctx.advancing_front.iter().map(|n| (n.point_id(), n.triangle)).collect();
        for w in nodes.windows(2) {
            let (a, b) = (w[0].0, w[1].0);
            let t = w[0].1.and_then(|k| ctx.triangles.get(k));
            let side = t.and_then(|t| (0..3).find(|i| t.points[(i + 1) % 3] == b && t.points[(i + 2) % 3] == a));
            match (t, side) {
                (Some(t), Some(i)) if t.neighbors[i].invalid() => {}
                _ => {
                    return Err(format!(
                        "the front node {} refers to a triangle that is not below its side",
                        self.name(a.as_usize())
                    ))
                }
            }
        }
        Ok(())
    }

    /// the front answers lookups like the sorted list it is
    fn front_lookups(&mut self, ctx: &Sweeper) -> R {
        let f = &ctx.advancing_front;
        let nodes: Vec<(usize, Point)> = f.iter().map(|n| (n.point_id().as_usize(), n.point())).collect();
        let len = nodes.len();
        let less = |a: Point, b: Point| a.x < b.x || (a.x == b.x && a.y < b.y);
        for past in [len, len + 1, usize::MAX] {
            if f.nth(past).is_some() {
                return Err(format!("nth({past}) of {len} gives a node"));
            }
        }
        for _ in 0..4 {
            let k = self.probe.below(len);
            let Some(n) = f.nth(k) else {
                return Err(format!("nth({k}) of {len} gives no node"));
            };
            if n.point_id().as_usize() != nodes[k].0 || !n.point().eq(&nodes[k].1) {
                return Err(format!("nth({k}) is not the {k}th node"));
            }
            let Some(g) = f.get_node(nodes[k].1) else {
                return Err(format!("the node of {} is not found", self.name(nodes[k].0)));
            };
            if g.point_id().as_usize() != nodes[k].0 || g.triangle != n.triangle {
                return Err("get_node gives another node".into());
            }
            let l = f.locate_node(nodes[k].1).map(|m| m.point_id().as_usize());
            if l != Some(nodes[k].0) {
                return Err(format!("locating {} does not give its node", self.name(nodes[k].0)));
            }
            for n in [n, g] {
                let nx = n.next().map(|m| m.point_id().as_usize());
                let pv = n.prev().map(|m| m.point_id().as_usize());
                if nx != nodes.get(k + 1).map(|m| m.0) || pv != (k > 0).then(|| nodes[k - 1].0) {
                    return Err(format!("the neighbours of front node {k} are wrong"));
                }
            }
            if k + 2 < len {
                let two = f.nth(k).and_then(|n| n.next()?.next().map(|m| m.point_id().as_usize()));
                if two != Some(nodes[k + 2].0) {
                    return Err(format!("the second neighbour of front node {k} is wrong"));
                }
            }
            if let Some(kept) = keep(ctx, k) {
                if self.kept.len() < 24 {
                    self.kept.push(kept);
                } else {
                    let at = self.probe.below(24);
                    self.kept[at] = kept;
                }
            }
        }
        // nodes kept from now and earlier events, which may have left the front or moved in it
        for kept in &self.kept {
            let q = Point::new(kept.at.0, kept.at.1);
            let want = [
                nodes.iter().find(|m| m.1.eq(&q)).map(|m| m.0),
                nodes.iter().find(|m| less(q, m.1)).map(|m| m.0),
                nodes.iter().rev().find(|m| less(m.1, q)).map(|m| m.0),
            ];
            if want[0].is_none() {
                self.gone += 1;
            }
            let got = (kept.ask)(ctx);
            if got != want {
                return Err(format!(
                    "the front node of {} kept from earlier: it, its next and its previous node are the points {got:?}, expected {want:?}",
                    self.name(kept.id)
                ));
            }
        }
        // arbitrary positions: the last node that is not beyond
        let (lo, hi) = (nodes[0].1, nodes[len - 1].1);
        for _ in 0..4 {
            let a = nodes[self.probe.below(len)].1;
            let q = match self.probe.below(4) {
                0 => Point::new(a.x, a.y - (a.y.abs() * 0.25 + 1.0)),
                1 => Point::new(a.x, a.y + (a.y.abs() * 0.25 + 1.0)),
                _ => Point::new(lo.x + (hi.x - lo.x) * self.probe.f() as Float, a.y),
            };
            let want = nodes.iter().rev().find(|m| !less(q, m.1)).map(|m| m.0);
            let got = f.locate_node(q).map(|m| m.point_id().as_usize());
            if got != want {
                return Err(format!("locating ({:?}, {:?}) gives point {got:?}, expected {want:?}", q.x, q.y));
            }
            let want = nodes.iter().find(|m| m.1.eq(&q)).map(|m| m.0);
            let got = f.get_node(q).map(|m| m.point_id().as_usize());
            if got != want {
                return Err(format!("the node at ({:?}, {:?}) is of point {got:?}, expected {want:?}", q.x, q.y));
            }
        }
        Ok(())
    }

    /// triangles change in a step only by the rotation it reported
    fn no_silent_rotation(&mut self, ctx: &Sweeper) {
        let Some(m) = &mut self.silent else { return };
        let mut bad = m.len() != ctx.triangles.len();
        for (k, t) in ctx.triangles.iter() {
            let k = k.as_usize();
            let now = corners(t.points);
            if k < m.len() && m[k] != now {
                bad |= !self.rotating.is_some_and(|(a, b)| a == k || b == k);
                m[k] = now;
            }
        }
        if bad {
            self.fail("a legalization changed triangles without reporting a rotation of them".into());
        }
    }

    /// the corners of every triangle are what the observer can conclude from what it was told
    fn follow(&mut self, ctx: &Sweeper, when: &str) {
        if self.pts.len() > 300 {
            return;
        }
        let now: Vec<[usize; 3]> = ctx.triangles.iter().map(|(_, t)| corners(t.points)).collect();
        if let Some(old) = &self.model {
            if now.len() < old.len() {
                self.fail(format!("{when}: triangles have been removed"));
                return;
            }
            // outside of legalizations only the forcing of an edge changes triangles
            let forcing = self.phase == Phase::Between && when.starts_with("after the edge event");
            let inside = self.phase == Phase::Between && self.legalizing.is_some();
            if !forcing && !inside {
                if let Some(k) = (0..old.len()).find(|k| old[*k] != now[*k]) {
                    self.fail(format!("{when}: triangle {k} changed from {:?} to {:?} without a rotation", old[k], now[k]));
                    return;
                }
            }
            if let Phase::InPoint(i) = self.phase {
                // a point event connects its point first
                if now.len() > old.len() && self.followed == 0 && !now[old.len()].contains(&i) {
                    self.fail(format!("{when}: the first new triangle does not contain the point"));
                    return;
                }
                self.followed += now.len() - old.len();
            } else if !forcing && !inside && now.len() != old.len() {
                self.fail(format!("{when}: new triangles outside of an event"));
                return;
            }
        }
        self.model = Some(now);
    }

    /// illegal_triangles and verify_triangles tell the truth
    fn legal(&self, ctx: &Sweeper, at_rest: bool) -> R {
        let mut want: HashSet<(usize, usize)> = HashSet::new();
        for (id, t) in ctx.triangles.iter() {
            let q = t.points.map(|x| self.at(ctx, x));
            for i in 0..3 {
                let nb = t.neighbors[i];
                if nb.invalid() || t.is_constrained(i) {
                    continue;
                }
                let Some(o) = ctx.triangles.get(nb) else {
                    return Err("unknown neighbour".into());
                };
                let (a, b) = (t.points[(i + 1) % 3], t.points[(i + 2) % 3]);
                let Some(op) = o.points.iter().find(|v| **v != a && **v != b) else {
                    return Err("neighbour with the same corners".into());
                };
                if incircle(q[i], q[(i + 1) % 3], q[(i + 2) % 3], self.at(ctx, *op)) > 0 {
                    want.insert((id.as_usize(), nb.as_usize()));
                }
            }
        }
        let got: Vec<(usize, usize)> = ctx
            .illegal_triangles()
            .iter()
            .map(|(a, b)| (a.as_usize(), b.as_usize()))
            .collect();
        let set: HashSet<(usize, usize)> = got.iter().copied().collect();
        if set.len() != got.len() {
            return Err("illegal_triangles lists a pair twice".into());
        }
        if set != want {
            return Err(format!(
                "illegal_triangles lists {} pairs, exact arithmetic finds {}",
                set.len(),
                want.len()
            ));
        }
        if ctx.verify_triangles() != want.is_empty() {
            return Err("verify_triangles disagrees with the mesh".into());
        }
        if at_rest && !want.is_empty() {
            return Err(format!("{} illegal pairs are left", want.len()));
        }
        Ok(())
    }
}

impl Observer for Watch {
    fn enter_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        let i = id.as_usize();
        if self.what.protocol {
            if self.phase != Phase::Between || self.legalizing.is_some() {
                self.fail(format!("point event {} begins inside another event", self.name(i)));
            }
            if self.sweep.get(self.next) != Some(&i) {
                let w = self.sweep.get(self.next).map(|w| self.name(*w));
                self.fail(format!("point event {}, expected {:?}", self.name(i), w));
            }
            if self.loose {
                self.fail(format!("a legalization between events, before the point event {}", self.name(i)));
            }
        }
        self.followed = 0;
        self.event(ctx, &format!("before the point event {}", self.name(i)));
        self.phase = Phase::InPoint(i);
    }

    fn exit_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        let i = id.as_usize();
        if self.what.protocol && (self.phase != Phase::InPoint(i) || self.legalizing.is_some()) {
            self.fail(format!("point event {} ends without having begun", self.name(i)));
        }
        if self.what.delta && self.err.is_none() {
            self.follow(ctx, &format!("in the point event {}", self.name(i)));
        }
        self.phase = Phase::Between;
        self.loose = false;
        self.next += 1;
        self.last = Some(i);
        self.event(ctx, &format!("after the point event {}", self.name(i)));
    }

    fn edge_event(&mut self, e: Edge, ctx: &Sweeper) {
        let (a, b) = (e.p.as_usize(), e.q.as_usize());
        if self.what.protocol {
            if self.phase != Phase::Between || self.legalizing.is_some() {
                self.fail("an edge event inside another event".into());
            }
            if self.last != Some(b) {
                self.fail(format!(
                    "edge event {} {} does not follow the point event of its upper end",
                    self.name(a),
                    self.name(b)
                ));
            }
            if !self.todo.contains(&(a, b)) {
                self.fail(format!(
                    "edge event {} {}: no ring edge with that lower and upper end, or reported twice",
                    self.name(a),
                    self.name(b)
                ));
            }
        }
        self.loose = false;
        self.todo.remove(&(a, b));
        self.done.insert((a, b));
        self.event(ctx, &format!("after the edge event {} {}", self.name(a), self.name(b)));
    }

    fn sweep_done(&mut self, ctx: &Sweeper) {
        if self.what.protocol {
            if self.phase != Phase::Between || self.legalizing.is_some() {
                self.fail("the sweep ends inside an event, or twice".into());
            }
            if self.loose {
                self.fail("a legalization after the last event".into());
            }
            if self.next != self.sweep.len() || !self.todo.is_empty() {
                self.fail(format!(
                    "the sweep ends after {} of {} points, {} ring edges missing",
                    self.next,
                    self.sweep.len(),
                    self.todo.len()
                ));
            }
        }
        self.event(ctx, "after the sweep");
        self.phase = Phase::Done;
    }

    fn finalized(&mut self, ctx: &Sweeper) {
        if self.what.protocol && self.phase != Phase::Done {
            self.fail("finalized without the end of the sweep, or twice".into());
        }
        self.phase = Phase::Finalized;
        self.event(ctx, "when finalized");
        for t in &ctx.result {
            match ctx.triangles.get(*t) {
                Some(t) => self.result.push(t.points.map(|v| v.as_usize())),
                None => self.fail("the result has an unknown triangle".into()),
            }
        }
        if self.what.mesh {
            let set: HashSet<usize> = ctx.result.iter().map(|t| t.as_usize()).collect();
            let bad = ctx
                .triangles
                .iter()
                .find(|(id, t)| t.interior != set.contains(&id.as_usize()))
                .map(|(id, _)| id.as_usize());
            if let Some(k) = bad {
                self.fail(format!("triangle {k}: marked interior and being a result differ"));
            }
        }
    }

    fn will_legalize(&mut self, id: TriangleId, ctx: &Sweeper) {
        if self.what.protocol {
            if self.legalizing.is_some() {
                self.fail("a legalization begins inside another".into());
            }
            if ctx.triangles.get(id).is_none() {
                self.fail("legalization of an unknown triangle".into());
            }
            if matches!(self.phase, Phase::Done | Phase::Finalized) {
                self.fail("legalization after the sweep".into());
            }
        }
        if self.what.delta && self.err.is_none() {
            self.legalizing = self.legalizing.or((self.phase == Phase::Between).then_some(id.as_usize()));
            self.follow(ctx, "before a legalization");
        }
        if self.what.protocol {
            let watched = self.probe.chance(40, self.pts.len().max(40));
            self.silent = watched.then(|| ctx.triangles.iter().map(|(_, t)| corners(t.points)).collect());
        }
        self.legalizing = Some(id.as_usize());
        self.loose = self.phase == Phase::Between;
        self.rotating = None;
        self.steps = 0;
        if self.what.legal && self.err.is_none() && self.probe.chance(50, self.pts.len().max(200)) {
            if let Err(e) = self.legal(ctx, false) {
                self.fail(format!("before a legalization: {e}"));
            }
        }
    }

    fn legalize_step(&mut self, id: TriangleId, ctx: &Sweeper) {
        if self.what.protocol {
            if self.legalizing.is_none() {
                self.fail("a legalization step outside of a legalization".into());
            }
            if ctx.triangles.get(id).is_none() {
                self.fail("a legalization step on an unknown triangle".into());
            }
            if self.rotating.is_some_and(|r| r.0 != id.as_usize()) {
                self.fail("a legalization step ends for another triangle than it rotated".into());
            }
        }
        self.steps += 1;
        self.no_silent_rotation(ctx);
        if let (true, Some((a, b)), Some(m)) = (self.what.delta, self.rotating, &mut self.model) {
            // the pair has exchanged its diagonal, whichever is which afterwards
            let get = |k: usize| ctx.triangles.get(TriangleId::from_index(k)).map(|t| corners(t.points));
            let (Some(x), Some(y)) = (get(a), get(b)) else {
                return;
            };
            let (s, t) = (m[a], m[b]);
            let shared: Vec<usize> = s.iter().copied().filter(|v| t.contains(v)).collect();
            let apex: Vec<usize> =
                s.iter().chain(t.iter()).copied().filter(|v| !shared.contains(v)).collect();
            if shared.len() != 2 || apex.len() != 2 {
                self.fail("rotation of two triangles that share no edge".into());
                return;
            }
            let mut want = shared.iter().map(|v| {
                let mut w = [apex[0], apex[1], *v];
                w.sort_unstable();
                w
            });
            let (u, v) = (want.next().unwrap(), want.next().unwrap());
            if !((x == u && y == v) || (x == v && y == u)) {
                self.fail(format!("the rotation of {s:?} and {t:?} gives {x:?} and {y:?}"));
                return;
            }
            self.followed += 1;
            let m = self.model.as_mut().unwrap();
            m[a] = x;
            m[b] = y;
        }
        self.rotating = None;
    }

    fn triangle_rotated(&mut self, a: TriangleId, b: TriangleId, ctx: &Sweeper) {
        self.rotations += 1;
        if self.what.protocol && self.legalizing.is_none() {
            self.fail("a rotation outside of a legalization".into());
        }
        if self.what.protocol && self.rotating.is_some() {
            self.fail("two rotations in one legalization step".into());
        }
        self.rotating = Some((a.as_usize(), b.as_usize()));
        if self.what.protocol || self.what.legal {
            let (Some(t), Some(o)) = (ctx.triangles.get(a), ctx.triangles.get(b)) else {
                self.fail("rotation of an unknown triangle".into());
                return;
            };
            let shared = t.points.iter().filter(|v| o.points.contains(v)).count();
            if a == b || shared != 2 {
                self.fail("rotation of two triangles that share no edge".into());
                return;
            }
            if self.what.legal && self.err.is_none() {
                let i = (0..3).find(|i| !o.points.contains(&t.points[*i])).unwrap();
                let q = t.points.map(|x| self.at(ctx, x));
                let op = *o.points.iter().find(|v| !t.points.contains(v)).unwrap();
                let op = self.at(ctx, op);
                if t.is_constrained(i) {
                    self.fail("a constrained edge is rotated away".into());
                } else if incircle(q[i], q[(i + 1) % 3], q[(i + 2) % 3], op) <= 0 {
                    self.fail("a legal pair is rotated".into());
                }
            }
        }
    }

    fn legalized(&mut self, id: TriangleId, ctx: &Sweeper) {
        if self.what.protocol && self.legalizing != Some(id.as_usize()) {
            self.fail("a legalization ends that did not begin".into());
        }
        if self.what.protocol && (self.rotating.is_some() || self.steps == 0) {
            self.fail("a legalization ends inside a step, or without any".into());
        }
        self.no_silent_rotation(ctx);
        if let (true, None, Some(m)) = (self.what.delta, &self.err, &self.model) {
            // nothing else has changed
            let same = m.len() == ctx.triangles.len()
                && ctx.triangles.iter().all(|(k, t)| m[k.as_usize()] == corners(t.points));
            if !same {
                self.fail("a legalization changed more than the triangles it reported as rotated".into());
            }
        }
        if self.what.mesh && self.err.is_none() {
            if let Err(e) = self.front_below(ctx) {
                self.fail(format!("at the end of a legalization: {e}"));
            }
        }
        self.legalizing = None;
    }
}

fn watch(i: &Input, x: &mut Ctx, what: What) -> Result<(Watch, Vec<u32>), String> {
    let c = i.geo();
    let plan = plan_of(c);
    let mut w = Watch::new(c, &plan, what);
    let t = builder(c, &plan).build().triangulate_with_observer(&mut w);
    x.nontrivial = w.rotations > 0;
    if w.rotations > 0 {
        x.tags.push("rotations");
    }
    if !c.holes.is_empty() {
        x.tags.push("holes");
    }
    if x.locs.iter().any(|l| *l != Loc::Inside) {
        x.tags.push("outside Steiner points");
    }
    let v = t.triangle_list_indices();
    match w.err.take() {
        Some(e) => Err(e),
        None => Ok((w, v)),
    }
}

pub fn c13(i: &Input, x: &mut Ctx) -> R {
    let (w, v) = watch(i, x, What { protocol: true, ..What::default() })?;
    if w.phase != Phase::Finalized {
        return Err("finalized was never reported".into());
    }
    if w.legalizing.is_some() {
        return Err("a legalization never ended".into());
    }
    let r: Vec<u32> = w.result.iter().flatten().map(|k| *k as u32).collect();
    if r != v {
        return Err(format!(
            "the observer saw a result of {} triangles, the caller gets {}, or others",
            r.len() / 3,
            v.len() / 3
        ));
    }
    Ok(())
}

pub fn c14(i: &Input, x: &mut Ctx) -> R {
    watch(i, x, What { mesh: true, ..What::default() }).map(|_| ())
}

pub fn c15(i: &Input, x: &mut Ctx) -> R {
    watch(i, x, What { legal: true, ..What::default() }).map(|_| ())
}

pub fn c27(i: &Input, x: &mut Ctx) -> R {
    let (w, _) = watch(i, x, What { front: true, ..What::default() })?;
    x.nontrivial = w.gone > 0;
    if w.gone > 0 {
        x.tags.push("nodes that left the front");
    }
    Ok(())
}

pub fn c28(i: &Input, x: &mut Ctx) -> R {
    watch(i, x, What { delta: true, ..What::default() }).map(|_| ())
}

/// collects ids that mean nothing in another triangulation
struct Collect(Vec<PointId>, Vec<Ask3>);
impl Observer for Collect {
    fn enter_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.0.push(id);
        let n = ctx.advancing_front.iter().count();
        self.1.extend(keep(ctx, n / 2).map(|k| k.ask));
        self.1.extend(keep(ctx, n - 1).map(|k| k.ask));
    }
}

struct Poke {
    rng: Rng,
    foreign: Vec<PointId>,
    /// front nodes of another triangulation, later also of this one
    nodes: Vec<Ask3>,
    err: Option<String>,
    unknown: usize,
    budget: usize,
}

impl Poke {
    fn poke(&mut self, ctx: &Sweeper) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let n = ctx.triangles.len();
        for _ in 0..3 {
            let k = match self.rng.below(6) {
                0 => usize::MAX,
                1 => usize::MAX - 1,
                2 => n,
                3 => n + self.rng.below(5000),
                4 => self.rng.u64() as usize,
                _ => self.rng.below(n.max(1)),
            };
            let id = TriangleId::from_index(k);
            if k >= n {
                self.unknown += 1;
            }
            let a = ctx.triangles.get(id).map(|t| t.points);
            let b = id.try_get(&ctx.triangles).map(|t| t.points);
            let c = catch_unwind(AssertUnwindSafe(|| id.get(&ctx.triangles).points)).ok();
            if a.is_some() != (k < n) || a != b || (a != c) {
                self.err = Some(format!(
                    "lookup of triangle {k} of {n}: get gives {}, try_get {}, indexing {}",
                    a.is_some(),
                    b.is_some(),
                    c.is_some()
                ));
            }
            if id.as_usize() != k
                || id.invalid() != (k == usize::MAX)
                || id.into_option().is_some() != (k != usize::MAX)
            {
                self.err = Some(format!("triangle id {k} does not keep its index"));
            }
        }
        let m = ctx.points.len();
        for id in self.foreign.clone() {
            if id.as_usize() >= m {
                self.unknown += 1;
            }
            if ctx.points.get_point(id).is_some() != (id.as_usize() < m) {
                self.err = Some(format!("lookup of point {} of {m}", id.as_usize()));
            }
        }
        let f = &ctx.advancing_front;
        let k = if self.rng.chance(1, 2) { self.rng.u64() as usize } else { self.rng.below(40) };
        let _ = f.nth(k).map(|n| n.point());
        let v = |r: &mut Rng| -> Float {
            match r.below(8) {
                0 => Float::NAN,
                1 => Float::INFINITY,
                2 => Float::NEG_INFINITY,
                3 => 0.0,
                _ => r.fr(-1000.0, 1000.0) as Float,
            }
        };
        let q = Point::new(v(&mut self.rng), v(&mut self.rng));
        // these may refuse with a panic, but not read what is not there
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let n = f.locate_node(q)?;
            let id = n.get_node_id();
            let a = f.locate_next_node(id).map(|n| n.point().x);
            let b = f.locate_prev_node(id).map(|n| n.point().x);
            std::hint::black_box((a, b, n.point().y));
            n.next()?.next()?.prev().map(|n| n.point().x)
        }));
        let _ = catch_unwind(AssertUnwindSafe(|| f.get_node(q).map(|n| n.point().x)));
        for ask in &self.nodes {
            let _ = catch_unwind(AssertUnwindSafe(|| std::hint::black_box(ask(ctx))));
        }
        if self.rng.chance(1, 4) && self.nodes.len() < 12 {
            let k = self.rng.below(40);
            self.nodes.extend(keep(ctx, k).map(|k| k.ask));
        }
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let k = self.rng.below(60);
            let id = ctx.points.get_id_by_y(k).map(|i| i.as_usize());
            std::hint::black_box((id, ctx.points.get_id_by_y(usize::MAX).is_some(), ctx.points.get_id_by_y(ctx.points.len()).is_some()))
        }));
    }
}

impl Observer for Poke {
    fn enter_point_event(&mut self, _: PointId, ctx: &Sweeper) {
        self.poke(ctx);
    }
    fn exit_point_event(&mut self, _: PointId, ctx: &Sweeper) {
        self.poke(ctx);
    }
    fn edge_event(&mut self, _: Edge, ctx: &Sweeper) {
        self.poke(ctx);
    }
    fn sweep_done(&mut self, ctx: &Sweeper) {
        self.poke(ctx);
    }
    fn finalized(&mut self, ctx: &Sweeper) {
        self.poke(ctx);
    }
    fn will_legalize(&mut self, _: TriangleId, ctx: &Sweeper) {
        self.poke(ctx);
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, ctx: &Sweeper) {
        self.poke(ctx);
    }
}

pub fn c24(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    // ids from a triangulation with 40 points
    let mut col = Collect(vec![], vec![]);
    let ring: Vec<Point> = (0..40)
        .map(|k| {
            let t = k as Float / 40.0 * 6.283;
            Point::new(t.cos(), t.sin())
        })
        .collect();
    let _ = poly2tri_rs::Builder::new(ring).build().triangulate_with_observer(&mut col);
    let mut rng = Rng::new(c.aux ^ 0x24);
    let foreign = (0..2).map(|_| col.0[rng.below(col.0.len())]).collect();
    let nodes = (0..4).map(|_| {
        let k = rng.below(col.1.len());
        col.1.swap_remove(k)
    });
    let nodes = nodes.collect();
    let mut w = Poke { rng, foreign, nodes, err: None, unknown: 0, budget: 60 };
    let plan = plan_of(c);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _ = builder(c, &plan).build().triangulate_with_observer(&mut w);
    }));
    x.tags.push(if r.is_ok() { "returned" } else { "panicked" });
    x.nontrivial = w.unknown > 0;
    match w.err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// what an observer can ask a triangle about its corners and neighbours
struct Ask {
    rng: Rng,
    err: Option<String>,
    asked: usize,
    shared: usize,
    pts: usize,
}

impl Ask {
    fn triangle(&mut self, ctx: &Sweeper, id: TriangleId) -> R {
        let t = *id.get(&ctx.triangles);
        let n = self.pts + 2;
        self.asked += 1;
        let stranger = ctx
            .points
            .iter()
            .map(|q| q.0)
            .nth(self.rng.below(n))
            .filter(|q| !t.points.contains(q));
        if let Some(s) = stranger {
            if t.point_index(s).is_some() {
                return Err("a point that is no corner has a corner index".into());
            }
            for i in 0..3 {
                if t.edge_index(t.points[i], s).is_some() || t.edge_index(s, t.points[i]).is_some() {
                    return Err("a segment that is no side has a side index".into());
                }
            }
            let mut u = t;
            u.set_constrained_for_edge(t.points[0], s);
            if (0..3).any(|i| u.is_constrained(i) != t.is_constrained(i)) {
                return Err("constraining a segment that is no side constrains a side".into());
            }
        }
        for i in 0..3 {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            let (a, b, c) = (t.points[i], t.points[j], t.points[k]);
            if t.point_ccw(a) != b || t.point_cw(a) != c || t.point_index(a) != Some(i) {
                return Err(format!("corner {i}: the corners left and right of it are wrong"));
            }
            if t.neighbor_across(a) != t.neighbors[i]
                || t.neighbor_ccw(a) != t.neighbors[k]
                || t.neighbor_cw(a) != t.neighbors[j]
            {
                return Err(format!("corner {i}: the neighbours around it are wrong"));
            }
            if t.edge_index(a, b) != Some(k) || t.edge_index(b, a) != Some(k) || t.edge_index(a, a).is_some() {
                return Err(format!("corner {i}: the side to the next corner has a wrong index"));
            }
            if t.constrained_edge_cw(a) != t.is_constrained(j) {
                return Err(format!("corner {i}: the constraint of the side left of it is wrong"));
            }
            // changing a copy changes that side only
            let mut u = t;
            let v = !t.is_constrained(i);
            u.set_constrained(i, v);
            let mut d = t;
            let w = !t.is_delaunay(i);
            d.set_delaunay(i, w);
            for m in 0..3 {
                if u.is_constrained(m) != (t.is_constrained(m) != (m == i))
                    || u.is_delaunay(m) != t.is_delaunay(m)
                    || d.is_delaunay(m) != (t.is_delaunay(m) != (m == i))
                    || d.is_constrained(m) != t.is_constrained(m)
                {
                    return Err(format!("side {i}: setting a mark of a copy changes another"));
                }
            }
            let mut u = t;
            u.set_constrained_for_edge(a, b);
            if (0..3).any(|m| u.is_constrained(m) != (t.is_constrained(m) || m == k)) {
                return Err(format!("corner {i}: constraining the side to the next corner is wrong"));
            }
            // attributes of the sides around a corner
            let mut u = t;
            u.set_constrained(j, true);
            u.set_constrained(k, false);
            let (cw, ccw) = (u.edge_attr_cw(a), u.edge_attr_ccw(a));
            let mut x = t;
            x.set_edge_attr_cw(a, ccw);
            x.set_edge_attr_ccw(a, cw);
            if x.is_constrained(j) || !x.is_constrained(k) || x.is_constrained(i) != t.is_constrained(i) {
                return Err(format!("corner {i}: the attributes of the sides around it are mixed up"));
            }
            let mut x = t;
            x.clear_neighbors();
            if x.points != t.points || x.neighbors.iter().any(|v| !v.invalid()) {
                return Err("clearing the neighbours of a copy is wrong".into());
            }
            // across the side opposite of a
            let nb = t.neighbors[i];
            let Some(o) = ctx.triangles.get(nb) else { continue };
            self.shared += 1;
            if t.neighbors.iter().filter(|v| **v == nb).count() == 1 && t.neighbor_index(nb) != i {
                return Err(format!("side {i}: the neighbour's index is wrong"));
            }
            let m = (0..3).find(|m| o.points[*m] != b && o.points[*m] != c).unwrap();
            if t.common_edge_index(o) != Some((i, m)) || o.common_edge_index(&t) != Some((m, i)) {
                return Err(format!(
                    "side {i}: the common side is {:?} and {:?}, not ({i}, {m})",
                    t.common_edge_index(o),
                    o.common_edge_index(&t)
                ));
            }
            if o.opposite_point(&t, a) != o.points[m] || t.opposite_point(o, o.points[m]) != a {
                return Err(format!("side {i}: the corner across it is wrong"));
            }
            // turning the quadrilateral's diagonal on copies
            let op = o.points[m];
            let (mut x, mut y) = (t, *o);
            x.rotate_cw(a, op);
            y.rotate_cw(op, a);
            let has = |v: &[PointId; 3], w: [PointId; 3]| (0..3).any(|r| (0..3).all(|q| v[(q + r) % 3] == w[q]));
            if !has(&x.points, [a, op, c]) || !has(&y.points, [a, b, op]) {
                return Err(format!("side {i}: turning it in a copy gives other triangles"));
            }
        }
        Ok(())
    }

    fn ask(&mut self, ctx: &Sweeper) {
        if self.err.is_some() {
            return;
        }
        let ids: Vec<TriangleId> = ctx.triangles.iter().map(|t| t.0).collect();
        for _ in 0..2 {
            if ids.is_empty() {
                return;
            }
            let id = *self.rng.pick(&ids);
            if let Err(e) = self.triangle(ctx, id) {
                self.err = Some(e);
                return;
            }
            // two triangles that share no side
            let (a, b) = (id.get(&ctx.triangles), self.rng.pick(&ids).get(&ctx.triangles));
            let n = a.points.iter().filter(|v| b.points.contains(v)).count();
            if n < 2 && a.common_edge_index(b).is_some() {
                self.err = Some("two triangles without a common side have one".into());
            }
        }
    }
}

impl Observer for Ask {
    fn exit_point_event(&mut self, _: PointId, ctx: &Sweeper) {
        self.ask(ctx);
    }
    fn edge_event(&mut self, _: Edge, ctx: &Sweeper) {
        self.ask(ctx);
    }
    fn sweep_done(&mut self, ctx: &Sweeper) {
        self.ask(ctx);
    }
}

pub fn c25(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    let mut w = Ask {
        rng: Rng::new(c.aux ^ 0x25),
        err: None,
        asked: 0,
        shared: 0,
        pts: c.len(),
    };
    let plan = plan_of(c);
    let _ = builder(c, &plan).build().triangulate_with_observer(&mut w);
    x.nontrivial = w.shared > 0;
    if w.shared > 20 {
        x.tags.push("more than 20 common sides");
    }
    match w.err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// the point store as an observer sees it
struct Store {
    pts: Vec<P>,
    edges: Vec<(usize, usize)>,
    rng: Rng,
    err: Option<String>,
    seen: usize,
}

impl Store {
    fn look(&mut self, ctx: &Sweeper) -> R {
        let (s, n) = (&ctx.points, self.pts.len());
        let same = |a: &Point, b: P| a.x as f64 == b.x && a.y as f64 == b.y;
        if s.len() != n + 2 || s.points().len() != n + 2 || s.points_without_fake().len() != n {
            return Err(format!("{} points for {n} of the input", s.len()));
        }
        if s.head.as_usize() < n || s.tail.as_usize() < n || s.head == s.tail {
            return Err("an artificial point has the id of an input point".into());
        }
        // the artificial points lie below and beside everything
        let (h, t) = (
            s.get_point(s.head).ok_or("no head")?,
            s.get_point(s.tail).ok_or("no tail")?,
        );
        for q in &self.pts {
            if !((h.y as f64) < q.y && (t.y as f64) < q.y && (h.x as f64) < q.x && (t.x as f64) > q.x) {
                return Err(format!("the artificial points {h:?} and {t:?} do not enclose {q:?} from below"));
            }
        }
        let all: Vec<(usize, Point)> = s.iter().map(|v| (v.0.as_usize(), *v.1)).collect();
        let real: Vec<(usize, Point)> = s.iter_without_fake().map(|v| (v.0.as_usize(), *v.1)).collect();
        if all.len() != n + 2 || real.len() != n {
            return Err("iterating the points gives too many or too few".into());
        }
        for k in 0..n {
            let q = self.pts[k];
            if all[k].0 != k || real[k].0 != k || !same(&all[k].1, q) || !same(&real[k].1, q)
                || !same(&s.points()[k], q) || !same(&s.points_without_fake()[k], q)
            {
                return Err(format!("point {k} is not the {k}th point of the input"));
            }
        }
        // by height
        let start = self.rng.below(n + 2);
        let by: Vec<(PointId, Point)> = s.iter_point_by_y(0).map(|v| (v.0, v.1)).collect();
        let rest: Vec<PointId> = s.iter_point_by_y(start).map(|v| v.0).collect();
        if by.len() != n || rest[..] != by[start.min(n)..].iter().map(|v| v.0).collect::<Vec<_>>()[..] {
            return Err(format!("iterating by height from {start} gives other points"));
        }
        for (k, v) in by.iter().enumerate() {
            if s.get_id_by_y(k) != Some(v.0) || !s.get_point(v.0).map_or(false, |q| q.eq(&v.1)) {
                return Err(format!("the point number {k} by height differs between two lookups"));
            }
            if k > 0 {
                let (a, b) = (by[k - 1].1, v.1);
                if !(a.y < b.y || (a.y == b.y && a.x < b.x)) {
                    return Err(format!("{a:?} comes before {b:?}"));
                }
            }
        }
        if s.get_id_by_y(n).is_some() {
            return Err("there is a point above the highest".into());
        }
        // ring edges, at their upper ends
        let mut want: Vec<(usize, usize)> = self
            .edges
            .iter()
            .map(|(a, b)| {
                if lower(self.pts[*a], self.pts[*b]) {
                    (*b, *a)
                } else {
                    (*a, *b)
                }
            })
            .collect();
        want.sort_unstable();
        let flat = |v: Vec<(usize, Vec<usize>)>| {
            let mut r: Vec<(usize, usize)> = v
                .into_iter()
                .flat_map(|(a, b)| b.into_iter().map(move |c| (a, c)))
                .collect();
            r.sort_unstable();
            r
        };
        let lists = [
            flat(s.iter().map(|v| (v.0.as_usize(), v.2.map(|q| q.as_usize()).collect())).collect()),
            flat(s.iter_without_fake().map(|v| (v.0.as_usize(), v.2.map(|q| q.as_usize()).collect())).collect()),
            flat(s.iter_point_by_y(0).map(|v| (v.0.as_usize(), v.2.map(|q| q.as_usize()).collect())).collect()),
        ];
        if lists.iter().any(|l| *l != want) {
            return Err("the edges stored with the points are not the ring edges at their upper ends".into());
        }
        Ok(())
    }
    fn maybe(&mut self, ctx: &Sweeper) {
        if self.err.is_none() && self.seen % (self.pts.len() / 10).max(8) == 0 {
            self.err = self.look(ctx).err();
        }
        self.seen += 1;
    }
}

impl Observer for Store {
    fn enter_point_event(&mut self, _: PointId, ctx: &Sweeper) {
        self.maybe(ctx);
    }
    fn edge_event(&mut self, _: Edge, ctx: &Sweeper) {
        self.maybe(ctx);
    }
    fn finalized(&mut self, ctx: &Sweeper) {
        self.seen = 0;
        self.maybe(ctx);
    }
}

pub fn c26(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    let plan = plan_of(c);
    let cp = c.points();
    let ord = order(c, &plan);
    let mut back = vec![0; ord.len()];
    for (b, k) in ord.iter().enumerate() {
        back[*k] = b;
    }
    let mut w = Store {
        pts: ord.iter().map(|k| cp[*k]).collect(),
        edges: c.edges().into_iter().map(|(a, b)| (back[a], back[b])).collect(),
        rng: Rng::new(c.aux ^ 0x26),
        err: None,
        seen: 0,
    };
    let _ = builder(c, &plan).build().triangulate_with_observer(&mut w);
    x.nontrivial = c.holes.len() + c.steiner.len() > 0;
    if w.pts.windows(2).any(|v| v[0].y == v[1].y) {
        x.tags.push("equal heights");
    }
    match w.err {
        Some(e) => Err(e),
        None if w.seen == 0 => Err("no event was reported".into()),
        None => Ok(()),
    }
}
