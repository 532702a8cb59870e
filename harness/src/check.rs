//! The properties decided from results alone (no observer).

use crate::case::*;
use crate::cov;
use crate::exact::*;
use crate::gen;
use crate::heap;
use crate::input::Input;
use crate::oracle;
use crate::props::Ctx;
use crate::rng::{splitmix, Rng};
use crate::tri::*;
use poly2tri_rs::{
    AsPoint, Builder, Edge, Float, Observer, Point, PointDataSource, PointId, Sweeper, TriangleId, CDT,
};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type R = Result<(), String>;

fn tag_geo(c: &Case, x: &mut Ctx) -> bool {
    let mut t = |b: bool, s: &'static str| {
        if b {
            x.tags.push(s)
        }
    };
    let n = c.len();
    t(n <= 8, "points<=8");
    t(n > 8 && n <= 30, "points 9..30");
    t(n > 30 && n <= 100, "points 31..100");
    t(n > 100, "points>100");
    t(!c.holes.is_empty(), "holes");
    t(c.holes.len() > 3, "more than 3 holes");
    t(!c.steiner.is_empty(), "steiner");
    let e = c.outer.len();
    let s = area2(&c.outer, min_exp(&c.outer)).sign();
    let mut reflex = false;
    let mut flat = false;
    let mut horiz = false;
    for i in 0..e {
        let (a, b, d) = (c.outer[i], c.outer[(i + 1) % e], c.outer[(i + 2) % e]);
        let o = orient(a, b, d) * s;
        reflex |= o < 0;
        flat |= o == 0;
        horiz |= a.y == b.y;
    }
    t(reflex, "reflex");
    t(flat, "collinear ring vertices");
    t(horiz, "horizontal edge");
    t(s < 0, "clockwise outer ring");
    t(
        x.locs.iter().any(|l| *l == Loc::Outside),
        "steiner outside",
    );
    t(x.locs.iter().any(|l| *l == Loc::InHole), "steiner in hole");
    reflex || !c.holes.is_empty() || !c.steiner.is_empty()
}

pub fn c01(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    x.nontrivial = tag_geo(c, x);
    let plan = plan_of(c);
    let t = builder(c, &plan).build().triangulate();
    let n = t.triangle_list_indices().len();
    let k = t.count();
    if k == 0 || n == 0 {
        return Err(format!("empty result: {n} indices, {k} triangles"));
    }
    Ok(())
}

pub fn c02(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let plan = plan_of(c);
    let ord = order(c, &plan);
    let t = builder(c, &plan).build().triangulate();
    let s = translate(c, &ord, &t.triangle_list_indices())?;
    x.nontrivial = s.tri.len() > 1;
    oracle::proper(&s)?;
    // the iterator's triangles, judged on their own coordinates
    for t in t {
        let v = t.points.map(|q| p(q.x as f64, q.y as f64));
        if orient(v[0], v[1], v[2]) <= 0 {
            return Err(format!("the iterator yields a triangle that is not counter clockwise: {v:?}"));
        }
    }
    Ok(())
}

pub fn c03(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    x.nontrivial = tag_geo(c, x);
    let s = solve(c)?;
    oracle::tiling(c, &s, x.inside())
}

pub fn c04(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    x.nontrivial = !c.holes.is_empty() || x.tags.contains(&"reflex");
    let s = solve(c)?;
    oracle::constraints(c, &s, c.len() <= 150)
}

pub fn c05(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    x.nontrivial = !c.holes.is_empty() || !c.steiner.is_empty();
    let s = solve(c)?;
    let locs = x.locs.clone();
    oracle::vertices(c, &s, &locs, c.len() <= 300)
}

pub fn c06(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let s = solve(c)?;
    x.nontrivial = s.tri.len() > 1;
    let ties = oracle::delaunay(&s)?;
    if ties > 0 {
        x.tags.push("cocircular ties");
    }
    if c.len() <= 24 {
        x.tags.push("global definition checked");
        let locs = x.locs.clone();
        oracle::delaunay_global(c, &s, &locs)?;
    }
    Ok(())
}

/// Steiner points outside of the region change nothing
pub fn c07(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let mut d = c.clone();
    let mut dl = vec![];
    d.steiner.clear();
    for (q, l) in c.steiner.iter().zip(&x.locs) {
        if *l == Loc::Inside {
            d.steiner.push(*q);
            dl.push(*l);
        }
    }
    let with = solve(c)?;
    let without = solve(&d)?;
    let locs = x.locs.clone();
    let k = oracle::full(c, &with, &locs).map_err(|e| format!("with the outside points: {e}"))?;
    oracle::full(&d, &without, &dl).map_err(|e| format!("without the outside points: {e}"))?;
    if k.ties > 0 {
        x.tags.push("cocircular ties");
        return Ok(());
    }
    x.nontrivial = d.steiner.len() < c.steiner.len();
    diff(
        "with and without the outside Steiner points",
        &with.set(|q| q),
        &without.set(|q| q),
    )
}

/// similarity maps that are exact in floating point
pub fn c08(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let base = solve(c)?;
    let locs = x.locs.clone();
    let k = oracle::full(c, &base, &locs).map_err(|e| format!("original: {e}"))?;
    x.nontrivial = k.ties == 0 && base.tri.len() > 1;
    if k.ties > 0 {
        x.tags.push("cocircular ties");
    }
    let mut rng = Rng::new(c.aux ^ 0x08);
    let s = 2f64.powi(rng.range(-20, 20) as i32);
    // a translation is exact when every coordinate survives the round trip
    let (tx, ty) = {
        let pts = c.points();
        let m = pts.iter().fold(1f64, |m, q| m.max(q.x.abs()).max(q.y.abs()));
        let st = 2f64.powi(min_exp(&pts).max(-60)).max(m / 1024.0);
        (
            (st * rng.range(-2000, 2000) as f64),
            (st * rng.range(-2000, 2000) as f64),
        )
    };
    let maps: [(&'static str, Box<dyn Fn(P) -> P>, bool); 7] = [
        ("scaled by a power of two", Box::new(move |q| p(q.x * s, q.y * s)), false),
        ("mirrored at the y axis", Box::new(|q| p(-q.x, q.y)), true),
        ("mirrored at the x axis", Box::new(|q| p(q.x, -q.y)), true),
        ("rotated by 180 degrees", Box::new(|q| p(-q.x, -q.y)), false),
        ("mirrored at the diagonal", Box::new(|q| p(q.y, q.x)), true),
        ("rotated by 90 degrees", Box::new(|q| p(-q.y, q.x)), false),
        ("translated", Box::new(move |q| p(q.x + tx, q.y + ty)), false),
    ];
    let pick = rng.below(maps.len());
    for (j, (name, f, flips)) in maps.iter().enumerate() {
        // the axis maps always, of the others a few per case
        if j != pick && rng.chance(1, 2) {
            continue;
        }
        let d = c.map(f);
        let exact = c.points().iter().zip(d.points()).all(|(a, b)| {
            if *name == "translated" {
                b.x - tx == a.x && b.y - ty == a.y && {
                    // both roundings exact: x + t is representable
                    let e = min_exp(&[*a, p(tx, ty), b]);
                    let w = |v: f64| Wide::from_f64(v, e);
                    w(a.x).add(w(tx)).sub(w(b.x)).sign() == 0
                        && w(a.y).add(w(ty)).sub(w(b.y)).sign() == 0
                }
            } else {
                true
            }
        });
        if !exact || d.points().iter().any(|q| (q.x as Float) as f64 != q.x || (q.y as Float) as f64 != q.y) {
            continue;
        }
        x.tags.push(name);
        let t = solve(&d).map_err(|e| format!("{name}: {e}"))?;
        oracle::full(&d, &t, &locs).map_err(|e| format!("{name}: {e}"))?;
        if k.ties == 0 {
            let want = if *flips { base.set_rev(f) } else { base.set(f) };
            diff(&format!("expected and actual after being {name}"), &want, &t.set(|q| q))?;
        }
    }
    Ok(())
}

/// the same geometry described differently
pub fn c09(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let base = solve_plain(c)?;
    let locs = x.locs.clone();
    let k = oracle::full(c, &base, &locs).map_err(|e| format!("original: {e}"))?;
    x.nontrivial = k.ties == 0 && base.tri.len() > 1;
    if k.ties > 0 {
        x.tags.push("cocircular ties");
    }
    let want = base.set(|q| q);
    let mut rng = Rng::new(c.aux ^ 0x09);
    for j in 0..4 {
        let mut d = c.clone();
        let mut dl: Vec<(P, Loc)> = c.steiner.iter().cloned().zip(locs.iter().cloned()).collect();
        let name: &'static str = match j {
            0 => {
                d.outer.reverse();
                "outer ring reversed"
            }
            1 => {
                let k = rng.below(d.outer.len());
                d.outer.rotate_left(k);
                for h in d.holes.iter_mut() {
                    let k = rng.below(h.len());
                    h.rotate_left(k);
                }
                "rings started elsewhere"
            }
            2 => {
                if d.holes.is_empty() && d.steiner.len() < 2 {
                    continue;
                }
                rng.shuffle(&mut d.holes);
                for h in d.holes.iter_mut() {
                    if rng.chance(1, 2) {
                        h.reverse();
                    }
                }
                rng.shuffle(&mut dl);
                "holes and Steiner points permuted, holes reversed"
            }
            _ => {
                if d.holes.is_empty() && d.steiner.is_empty() {
                    continue;
                }
                "calls in another order"
            }
        };
        d.steiner = dl.iter().map(|e| e.0).collect();
        let dl: Vec<Loc> = dl.iter().map(|e| e.1).collect();
        x.tags.push(name);
        let plan = if j == 3 {
            random_plan(&d, &mut rng)
        } else {
            plain(&d)
        };
        let t = solve_plan(&d, &plan).map_err(|e| format!("{name}: {e}"))?;
        oracle::full(&d, &t, &dl).map_err(|e| format!("{name}: {e}"))?;
        if k.ties == 0 {
            diff(&format!("original and {name}"), &want, &t.set(|q| q))?;
        }
    }
    Ok(())
}

fn run_idx(c: CDT<()>) -> Vec<u32> {
    c.triangulate().triangle_list_indices()
}

struct Silent;
impl poly2tri_rs::Observer for Silent {}

fn small_case(rng: &mut Rng) -> Case {
    gen::gen(
        rng,
        gen::Opts {
            inside: true,
            outside: false,
            holes: true,
            max_n: 12,
        },
    )
}

/// the result depends on nothing but the input
/// counts down over the callbacks of an observer, then panics
struct PanicAt(usize);

impl PanicAt {
    fn tick(&mut self) {
        if self.0 == 0 {
            panic!("the observer gives up");
        }
        self.0 -= 1;
    }
}

impl Observer for PanicAt {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick()
    }
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick()
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.tick()
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn finalized(&mut self, _: &Sweeper) {
        self.tick()
    }
}

/// triangulates something else in one of the callbacks
struct Nested<'a> {
    at: usize,
    run: Box<dyn Fn() -> Vec<u32> + 'a>,
    got: Option<Vec<u32>>,
}

impl Nested<'_> {
    fn tick(&mut self) {
        if self.at == 0 {
            self.got = Some((self.run)());
        }
        self.at = self.at.wrapping_sub(1);
    }
}

impl Observer for Nested<'_> {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick()
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.tick()
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        self.tick()
    }
}

fn run_with<O: Observer>(cdt: CDT<()>, w: &mut O) -> Vec<u32> {
    cdt.triangulate_with_observer(w).triangle_list_indices()
}

/// a valid input that differs in one point, in the order of a ring, or in scale
fn sibling(c: &Case, rng: &mut Rng) -> Option<Case> {
    for _ in 0..6 {
        let mut s = c.clone();
        match rng.below(6) {
            0 => s.outer.rotate_left(1),
            1 => s.outer.reverse(),
            2 => {
                for q in s.outer.iter_mut().chain(s.holes.iter_mut().flatten()).chain(s.steiner.iter_mut()) {
                    *q = p(q.x * 2.0, q.y * 2.0);
                }
            }
            _ => {
                let pts = c.points();
                let to = pts[rng.below(pts.len())];
                let f = *rng.pick(&[0.5, 0.25, 0.0625, 0.001]);
                let st = s.steiner.len();
                let q = if st > 0 && rng.chance(2, 3) {
                    &mut s.steiner[rng.below(st)]
                } else {
                    let k = rng.below(s.outer.len());
                    &mut s.outer[k]
                };
                *q = p(
                    (q.x + (to.x - q.x) * f) as Float as f64,
                    (q.y + (to.y - q.y) * f) as Float as f64,
                );
            }
        }
        if admit(&s).is_ok() {
            return Some(s);
        }
    }
    None
}

pub fn c10(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let plan = plan_of(c);
    let b = builder(c, &plan);
    let b2 = b.clone();
    let cdt = b.build();
    let cdt2 = cdt.clone();
    let first = run_idx(cdt.clone());
    x.nontrivial = first.len() > 3;
    let same = |what: &str, v: &[u32]| -> R {
        if v == first {
            Ok(())
        } else {
            Err(format!(
                "{what}: {} and {} indices, first difference at {:?}",
                first.len(),
                v.len(),
                first.iter().zip(v).position(|(a, b)| a != b)
            ))
        }
    };
    same("the same CDT again", &run_idx(cdt))?;
    same("a clone of the CDT", &run_idx(cdt2))?;
    same("a clone of the Builder", &run_idx(b2.build()))?;
    same("a second Builder", &run_idx(builder(c, &plan).build()))?;
    same(
        "with an observer",
        &builder(c, &plan)
            .build()
            .triangulate_with_observer(&mut Silent)
            .triangle_list_indices(),
    )?;
    let mut rng = Rng::new(c.aux ^ 0x10);
    // a history of other inputs in between
    let others: Vec<Case> = (0..3).map(|_| small_case(&mut rng)).collect();
    let ref_others: Vec<Vec<u32>> = others
        .iter()
        .map(|o| run_idx(builder(o, &plain(o)).build()))
        .collect();
    same("after other inputs", &run_idx(builder(c, &plan).build()))?;
    // keep a result alive while others are made
    let held = builder(c, &plan).build().triangulate();
    let others2: Vec<Vec<u32>> = others
        .iter()
        .map(|o| run_idx(builder(o, &plain(o)).build()))
        .collect();
    same("a result read after other inputs", &held.triangle_list_indices())?;
    if others2 != ref_others {
        return Err("another input gives a different result after this one".into());
    }
    // inputs that have almost everything in common with this one, after it and after others
    for _ in 0..2 {
        let Some(sib) = (if c.len() <= 80 { sibling(c, &mut rng) } else { None }) else {
            continue;
        };
        x.tags.push("similar inputs");
        let run = || run_idx(builder(&sib, &plain(&sib)).build());
        same("before a similar input", &run_idx(builder(c, &plan).build()))?;
        let after_this = run();
        let again = run();
        same("after a similar input", &run_idx(builder(c, &plan).build()))?;
        let _ = run_idx(builder(&others[0], &plain(&others[0])).build());
        let after_other = run();
        if after_this != again || after_this != after_other {
            return Err("a similar input gives different results after this and after another input".into());
        }
    }
    if c.len() <= 200 && rng.chance(1, 4) {
        // a call that ends in a panic leaves nothing behind
        x.tags.push("a call that panicked");
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut w = PanicAt(rng.below(6 * c.len()));
            run_with(builder(c, &plan).build(), &mut w);
        }));
        if r.is_err() {
            x.tags.push("an observer's panic");
        }
        let _ = catch_unwind(|| run_idx(Builder::new(vec![Point::new(0.0, 0.0); 3]).build()));
        let _ = catch_unwind(|| run_idx(Builder::new(Vec::<Point>::new()).build()));
        same("after a call that panicked", &run_idx(builder(c, &plan).build()))?;
        for (o, r) in others.iter().zip(&ref_others) {
            if run_idx(builder(o, &plain(o)).build()) != *r {
                return Err("another input gives a different result after a call that panicked".into());
            }
        }
    }
    if c.len() <= 200 && rng.chance(1, 4) {
        // and an observer may itself triangulate
        x.tags.push("a call inside an observer");
        let mut w = Nested {
            at: rng.below(4 * c.len()),
            run: Box::new(|| run_idx(builder(&others[0], &plain(&others[0])).build())),
            got: None,
        };
        same("with another call inside of it", &run_with(builder(c, &plan).build(), &mut w))?;
        if w.got.is_some_and(|g| g != ref_others[0]) {
            return Err("a call made inside an observer gives a different result".into());
        }
    }
    if rng.chance(1, 8) {
        x.tags.push("threads");
        // the same and other inputs at the same time on several threads
        let bad = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|k| {
                    let (plan, others, ref_others, first) = (&plan, &others, &ref_others, &first);
                    s.spawn(move || {
                        for r in 0..4usize {
                            if (r + k) % 2 == 0 {
                                if run_idx(builder(c, plan).build()) != *first {
                                    return Some("the input on another thread");
                                }
                            } else {
                                let j = (r + k) % others.len();
                                if run_idx(builder(&others[j], &plain(&others[j])).build())
                                    != ref_others[j]
                                {
                                    return Some("another input on another thread");
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            let mut bad = None;
            for h in hs {
                match h.join() {
                    Ok(r) => bad = bad.or(r),
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
            bad
        });
        if let Some(b) = bad {
            return Err(format!("{b}: different result"));
        }
    }
    if rng.chance(1, 500) {
        x.tags.push("long history");
        for k in 0..1500 {
            let o = k % others.len();
            if run_idx(builder(&others[o], &plain(&others[o])).build()) != ref_others[o] {
                return Err(format!("call {k} of a long history gives a different result"));
            }
        }
        same("after a long history", &run_idx(builder(c, &plan).build()))?;
    }
    Ok(())
}

/// counts how often each token was dropped
#[derive(Clone)]
struct Tok {
    id: usize,
    log: Rc<RefCell<Log>>,
}

#[derive(Default)]
struct Log {
    made: usize,
    dropped: usize,
}

impl Tok {
    fn new(id: usize, log: &Rc<RefCell<Log>>) -> Tok {
        log.borrow_mut().made += 1;
        Tok { id, log: log.clone() }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        self.log.borrow_mut().dropped += 1;
    }
}

/// a user defined source; counts how often it is asked
struct Source {
    pts: Vec<Point>,
    toks: Vec<Tok>,
    asked: Rc<RefCell<usize>>,
}

impl PointDataSource for Source {
    type Data = Tok;
    fn points_and_data(self) -> (Vec<Point>, Vec<Tok>) {
        *self.asked.borrow_mut() += 1;
        (self.pts, self.toks)
    }
}

fn bits_of(q: &Point) -> (u64, u64) {
    ((q.x as f64).to_bits(), (q.y as f64).to_bits())
}

/// model: the list of (point, token) in the order of the calls
/// panics after some point and edge events
struct Quits(usize);

impl Quits {
    fn step(&mut self) {
        if self.0 == 0 {
            panic!("the observer gives up");
        }
        self.0 -= 1;
    }
}

impl Observer for Quits {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.step()
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.step()
    }
    fn finalized(&mut self, _: &Sweeper) {
        self.step()
    }
}

pub fn c11(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let mut rng = Rng::new(c.aux ^ 0x11);
    let plan = random_plan(c, &mut rng);
    x.nontrivial = plan.len() >= 2;
    let log = Rc::new(RefCell::new(Log::default()));
    let asked = Rc::new(RefCell::new(0usize));
    let mut sources = 0;
    let mut model: Vec<(Point, usize)> = vec![];
    let mut clones = 0;
    {
        let mut next = 0;
        // some zero coordinates negative: the sign has to survive
        let neg = rng.chance(1, 4);
        let fix = |q: P| {
            let f = |v: f64| if neg && v == 0.0 { -0.0 } else { v };
            fp(p(f(q.x), f(q.y)))
        };
        let mut take = |v: &[P], model: &mut Vec<(Point, usize)>| {
            let pts: Vec<Point> = v.iter().map(|q| fix(*q)).collect();
            let mut toks = vec![];
            for q in &pts {
                model.push((*q, next));
                toks.push(Tok::new(next, &log));
                next += 1;
            }
            (pts, toks)
        };
        let (p0, t0) = take(&c.outer, &mut model);
        let mut b = if rng.chance(1, 2) {
            sources += 1;
            Builder::new(Source { pts: p0, toks: t0, asked: asked.clone() })
        } else {
            Builder::new((p0, t0))
        };
        for op in &plan {
            if rng.chance(1, 10) {
                // go on with a clone; the original is dropped
                let d = b.clone();
                clones += model.len();
                b = d;
            }
            b = match op {
                Op::Hole(i) => {
                    let (q, t) = take(&c.holes[*i], &mut model);
                    if rng.chance(1, 2) {
                        sources += 1;
                        b.add_hole(Source { pts: q, toks: t, asked: asked.clone() })
                    } else {
                        b.add_hole((q, t))
                    }
                }
                Op::Holes(r) => {
                    let v: Vec<_> = r.iter().map(|i| take(&c.holes[*i], &mut model)).collect();
                    b.add_holes(v)
                }
                Op::Steiner(i) => {
                    let (q, mut t) = take(&[c.steiner[*i]], &mut model);
                    b.add_steiner_point(q[0], t.pop().unwrap())
                }
                Op::SteinerBatch(r) => {
                    let v: Vec<P> = r.iter().map(|i| c.steiner[*i]).collect();
                    let (q, t) = take(&v, &mut model);
                    if rng.chance(1, 2) {
                        sources += 1;
                        b.add_steiner_points(Source { pts: q, toks: t, asked: asked.clone() })
                    } else {
                        b.add_steiner_points((q, t))
                    }
                }
            };
        }
        let cdt = b.build();
        let extra = if rng.chance(1, 5) {
            clones += model.len();
            Some(cdt.clone())
        } else {
            None
        };
        if rng.chance(1, 8) {
            // left by a panic of the observer: the data are dropped all the same
            clones += model.len();
            let d = cdt.clone();
            let mut o = Quits(rng.below(2 * c.len()));
            let r = catch_unwind(AssertUnwindSafe(move || d.triangulate_with_observer(&mut o)));
            x.tags.push(if r.is_err() { "observer panicked" } else { "observer about to panic" });
        }
        let mut t = cdt.triangulate();
        let check = |tp: &[Point], td: &[Tok], when: &str| -> R {
            if tp.len() != model.len() || td.len() != model.len() {
                return Err(format!(
                    "{when}: {} points and {} data for {} added",
                    tp.len(),
                    td.len(),
                    model.len()
                ));
            }
            for (k, (q, id)) in model.iter().enumerate() {
                if bits_of(&tp[k]) != bits_of(q) {
                    return Err(format!("{when}: point {k} is {:?}, added {:?}", tp[k], q));
                }
                if td[k].id != *id {
                    return Err(format!(
                        "{when}: point {k} has the data of point {}",
                        td[k].id
                    ));
                }
            }
            Ok(())
        };
        check(t.points(), t.data(), "after triangulate")?;
        let k = t.triangle_list_indices();
        if k.iter().any(|v| *v as usize >= model.len()) {
            return Err("an index has no data".into());
        }
        let _ = t.by_ref().take(2).count();
        check(t.points(), t.data(), "while iterating")?;
        let _ = t.by_ref().count();
        check(t.points(), t.data(), "after iterating")?;
        drop(t);
        if let Some(e) = extra {
            let t = e.triangulate();
            check(t.points(), t.data(), "a clone triangulated later")?;
        }
        if *asked.borrow() != sources {
            return Err(format!(
                "{sources} point sources were asked {} times",
                asked.borrow()
            ));
        }
    }
    let l = log.borrow();
    if l.dropped != l.made + clones {
        return Err(format!(
            "{} data values were made (and {clones} cloned) but {} were dropped",
            l.made, l.dropped
        ));
    }
    // the other ways to attach data
    let q = fp(c.outer[0]);
    let a = (q, 7usize);
    let d = ([q.x, q.y], 9usize);
    if bits_of(&a.point()) != bits_of(&q)
        || bits_of(&d.point()) != bits_of(&q)
        || bits_of(&q.point()) != bits_of(&q)
        || a.data() != 7
        || d.data() != 9
    {
        return Err("AsPoint does not return the point and its data".into());
    }
    // unit data
    let t = builder(c, &plain(c)).build().triangulate();
    if t.data().len() != t.points().len() {
        return Err("unit data differs in number from the points".into());
    }
    Ok(())
}

fn tri_bits(t: &[Point; 3]) -> [(u64, u64); 3] {
    [bits_of(&t[0]), bits_of(&t[1]), bits_of(&t[2])]
}

/// model: the list of triangles in index order, and a cursor
pub fn c12(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let plan = plan_of(c);
    let make = || builder(c, &plan).build().triangulate();
    let mut t = make();
    let idx = t.triangle_list_indices();
    if idx.len() % 3 != 0 {
        return Err(format!("index list has length {}", idx.len()));
    }
    let pts: Vec<Point> = t.points().to_vec();
    if let Some(v) = idx.iter().find(|v| **v as usize >= pts.len()) {
        return Err(format!("index {v} out of range"));
    }
    let want: Vec<[(u64, u64); 3]> = idx
        .chunks(3)
        .map(|k| [0, 1, 2].map(|j| bits_of(&pts[k[j] as usize])))
        .collect();
    x.nontrivial = want.len() > 1;
    let mut rng = Rng::new(c.aux ^ 0x12);
    let mut cur = 0;
    let n = want.len();
    let mut steps = 0;
    loop {
        steps += 1;
        let mut op = rng.below(8);
        if op < 2 && n > 200 && !rng.chance(200, n) {
            // these look at everything
            op = 7;
        }
        match op {
            0 => {
                if t.triangle_list_indices() != idx {
                    return Err(format!("the index list changed after {cur} triangles were taken"));
                }
            }
            1 => {
                if t.points().len() != pts.len()
                    || t.points().iter().zip(&pts).any(|(a, b)| bits_of(a) != bits_of(b))
                    || t.data().len() != pts.len()
                {
                    return Err(format!("the points changed after {cur} triangles were taken"));
                }
            }
            2 => {
                let (lo, hi) = t.size_hint();
                let left = n - cur.min(n);
                if lo > left || hi.is_some_and(|h| h < left) {
                    return Err(format!("size hint ({lo}, {hi:?}) with {left} triangles left"));
                }
            }
            3 => {
                let k = rng.below(4);
                let got = t.nth(k).map(|v| tri_bits(&v.points));
                let exp = want.get(cur + k).copied();
                if got != exp {
                    return Err(format!("nth({k}) after {cur} triangles: {got:?}, expected {exp:?}"));
                }
                cur = (cur + k + 1).min(n + 1);
            }
            4 => {
                let k = rng.below(5);
                let got: Vec<_> = t.by_ref().take(k).map(|v| tri_bits(&v.points)).collect();
                let a = cur.min(n);
                let b = (cur + k).min(n);
                if got[..] != want[a..b] {
                    return Err(format!("take({k}) after {cur} triangles differs"));
                }
                cur = b;
            }
            _ => {
                let got = t.next().map(|v| tri_bits(&v.points));
                let exp = want.get(cur).copied();
                if got != exp {
                    return Err(format!(
                        "triangle {cur} of {n} from the iterator: {got:?}, index list: {exp:?}"
                    ));
                }
                cur = (cur + 1).min(n + 1);
            }
        }
        if cur >= n && steps > n + 4 && rng.chance(1, 3) {
            break;
        }
    }
    for _ in 0..3 {
        if t.next().is_some() {
            return Err("the iterator yields a triangle after its end".into());
        }
    }
    if t.triangle_list_indices() != idx {
        return Err("the index list changed after the iteration".into());
    }
    // whole-iterator consumers
    if make().count() != n {
        return Err("count() differs from the index list".into());
    }
    let v: Vec<_> = make().map(|v| tri_bits(&v.points)).collect();
    if v != want {
        return Err("collect() differs from the index list".into());
    }
    if make().last().map(|v| tri_bits(&v.points)) != want.last().copied() {
        return Err("last() differs from the index list".into());
    }
    let v: Vec<_> = make().step_by(3).map(|v| tri_bits(&v.points)).collect();
    let w: Vec<_> = want.iter().step_by(3).copied().collect();
    if v != w {
        return Err("step_by(3) differs from the index list".into());
    }
    Ok(())
}

/// digests of the result for the comparison between builds: of the set of triangles, when it is
/// unique, and of the list of indices
pub fn c18(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let s = solve(c)?;
    let locs = x.locs.clone();
    let k = oracle::full(c, &s, &locs)?;
    let mut h = s.tri.len() as u64 + 1;
    if k.ties == 0 {
        x.nontrivial = s.tri.len() > 1;
        for t in s.set(|q| q) {
            for v in t {
                let mut z = h ^ v;
                h = splitmix(&mut z);
            }
        }
    } else {
        x.tags.push("cocircular ties");
    }
    // and the very list, which builds of the same float type share
    let mut l = 0u64;
    for v in builder(c, &plain(c)).build().triangulate().triangle_list_indices() {
        let mut z = l ^ v as u64;
        l = splitmix(&mut z);
    }
    x.digest = h << 32 | l >> 32;
    Ok(())
}

pub fn c19(i: &Input, x: &mut Ctx) -> R {
    let Input::Big { kind, n, seed } = i else {
        return Err("not a large input".into());
    };
    let c = gen::big(kind, *n, *seed);
    x.nontrivial = true;
    x.tags.push(gen::kind_name(kind));
    x.tags.push(match c.len() {
        0..=9_999 => "points<10000",
        10_000..=65_535 => "points 10000..65535",
        _ => "points>=65536",
    });
    // the stack of a default thread
    let s = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, || solve_plain(&c))
            .unwrap()
            .join()
    });
    let s = match s {
        Ok(s) => s?,
        Err(e) => std::panic::resume_unwind(e),
    };
    let locs = vec![Loc::Inside; c.steiner.len()];
    oracle::full(&c, &s, &locs).map(|_| ())
}

/// bytes of heap that may be in use: the families of C29 need memory in proportion to their points,
/// the worst ones remember every flip of an edge, of which there can be about one for each pair
fn heap_allowed(c: &Case) -> usize {
    let n = c.len();
    let even = c.family.strip_prefix("big ").is_some_and(|k| EVEN.contains(&k));
    (64 << 10) + if even { 1024 * n } else { 4096 * n + 16 * n * n }
}

pub fn c30(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let plan = plan_of(c);
    let mut left = [0; 3];
    for l in left.iter_mut() {
        let b = heap::begin();
        let mut t = builder(c, &plan).build().triangulate();
        let v = t.triangle_list_indices();
        x.nontrivial = v.len() > 3;
        if c.aux & 1 == 0 {
            let _ = t.by_ref().count();
        }
        let used = (heap::peak() - b) as usize;
        drop((t, v));
        *l = heap::live() - b;
        if used > heap_allowed(c) {
            return Err(format!("{used} bytes of heap in use for {} points", c.len()));
        }
    }
    // the first call may set something up
    if left[1] > 0 || left[2] > 0 {
        return Err(format!("{} bytes of heap remain after every call", left[1].max(left[2])));
    }
    Ok(())
}

/// the families of C29 and the size ratio it compares
pub const EVEN: [&str; 5] = ["cloud", "grid_holes", "holes_cloud", "stairs", "saw"];
const RATIO: usize = 100;

pub fn c29(i: &Input, x: &mut Ctx) -> R {
    let Input::Big { kind, n, seed } = i else {
        return Err("not a large input".into());
    };
    if !EVEN.contains(&kind.as_str()) || !(400..=1000).contains(n) {
        return Ok(());
    }
    x.tags.push(gen::kind_name(kind));
    x.nontrivial = true;
    let work = |n: usize| -> f64 {
        let c = gen::big(kind, n, *seed);
        let b = cov::count();
        let t = builder(&c, &plain(&c)).build().triangulate();
        let v = t.triangle_list_indices();
        let k = t.count();
        let w = (cov::count() - b) as f64 / c.len() as f64;
        std::hint::black_box((v, k));
        w
    };
    let (small, large) = (work(*n), work(*n * RATIO));
    if large > 2.5 * small {
        return Err(format!(
            "{small:.0} steps per point at {n} points but {large:.0} at {} points",
            n * RATIO
        ));
    }
    Ok(())
}

pub fn c20(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    let ok = admit(c).is_ok();
    x.nontrivial = !ok;
    x.tags.push(if ok { "valid" } else { "invalid" });
    let plan = plan_of(c);
    let t = builder(c, &plan).build().triangulate();
    let idx = t.triangle_list_indices();
    let n = t.points().len();
    x.tags.push("returned");
    let mut acc = 0.0;
    for v in idx {
        acc += t.points().get(v as usize).map_or(0.0, |q| q.x as f64);
    }
    for v in t {
        acc += v.points[0].y as f64;
    }
    std::hint::black_box((acc, n));
    Ok(())
}

pub fn c21(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    if let Some(t) = gen::extreme_tag(&c.family) {
        x.tags.push(t);
    }
    let s = solve(c)?;
    x.nontrivial = s.tri.len() > 1;
    let locs = x.locs.clone();
    oracle::full(c, &s, &locs).map(|_| ())
}

/// one more interior point only affects the triangles whose circumcircle contains it
pub fn c22(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let a = solve_plain(c)?;
    let locs = x.locs.clone();
    let k = oracle::full(c, &a, &locs).map_err(|e| format!("original: {e}"))?;
    if k.ties > 0 {
        x.tags.push("cocircular ties");
        return Ok(());
    }
    let mut rng = Rng::new(c.aux ^ 0x22);
    let mut q = None;
    for _ in 0..20 {
        // a point in or near a random triangle
        let t = rng.pick(&a.tri);
        let v = t.map(|i| a.pts[i]);
        let (r, s) = (rng.f(), rng.f());
        let (r, s) = if r + s > 1.0 { (1.0 - r, 1.0 - s) } else { (r, s) };
        let f = if rng.chance(1, 3) { rng.fr(0.0, 0.05) } else { 1.0 };
        let g = |a: f64, b: f64, c: f64| gen::q(a + ((b - a) * r + (c - a) * s) * f);
        let d = p(g(v[0].x, v[1].x, v[2].x), g(v[0].y, v[1].y, v[2].y));
        if a.pts.contains(&d) || locate_in(c, d) != Some(Loc::Inside) {
            continue;
        }
        q = Some(d);
        break;
    }
    let Some(q) = q else { return Ok(()) };
    let mut d = c.clone();
    d.steiner.push(q);
    if admit(&d).is_err() {
        return Ok(());
    }
    let mut dl = locs.clone();
    dl.push(Loc::Inside);
    let b = solve_plain(&d).map_err(|e| format!("with ({:?}, {:?}): {e}", q.x, q.y))?;
    oracle::full(&d, &b, &dl).map_err(|e| format!("with ({:?}, {:?}): {e}", q.x, q.y))?;
    let old = a.set(|v| v);
    let new = b.set(|v| v);
    let (mut kept, mut lost) = (0, 0);
    for t in &a.tri {
        let v = t.map(|i| a.pts[i]);
        let here = new.binary_search(&canon(v[0], v[1], v[2])).is_ok();
        match incircle(v[0], v[1], v[2], q) {
            -1 => {
                kept += 1;
                if !here {
                    return Err(format!(
                        "adding ({:?}, {:?}) removes the triangle {}, whose circumcircle does not contain it",
                        q.x, q.y, show(&canon(v[0], v[1], v[2]))
                    ));
                }
            }
            _ => lost += !here as usize,
        }
    }
    let nq = b.pts.len() - 1;
    for t in &b.tri {
        let v = t.map(|i| b.pts[i]);
        if !t.contains(&nq) && old.binary_search(&canon(v[0], v[1], v[2])).is_err() {
            return Err(format!(
                "adding ({:?}, {:?}) makes the triangle {}, which does not touch it",
                q.x, q.y, show(&canon(v[0], v[1], v[2]))
            ));
        }
    }
    x.nontrivial = kept > 0 && lost > 0;
    Ok(())
}

/// cutting the polygon along an edge of its triangulation gives two polygons whose
/// triangulations are the two parts
pub fn c23(i: &Input, x: &mut Ctx) -> R {
    let c = i.geo();
    tag_geo(c, x);
    let a = solve_plain(c)?;
    let locs = x.locs.clone();
    let k = oracle::full(c, &a, &locs).map_err(|e| format!("original: {e}"))?;
    if k.ties > 0 {
        x.tags.push("cocircular ties");
        return Ok(());
    }
    let n = c.outer.len();
    let ed = oracle::Edges::new(&a);
    let cuts: Vec<(usize, usize)> = ed
        .iter()
        .filter(|(u, v, _)| u < v && *v < n && ed.get(*v, *u).is_some())
        .map(|(u, v, _)| (u, v))
        .collect();
    if cuts.is_empty() {
        return Ok(());
    }
    let mut rng = Rng::new(c.aux ^ 0x23);
    let (u, v) = *rng.pick(&cuts);
    let one = Case {
        outer: c.outer[u..=v].to_vec(),
        holes: vec![],
        steiner: vec![],
        ..c.clone()
    };
    let mut o2 = c.outer[v..].to_vec();
    o2.extend_from_slice(&c.outer[..=u]);
    let two = Case {
        outer: o2,
        holes: vec![],
        steiner: vec![],
        ..c.clone()
    };
    let mut parts = [one, two];
    for h in &c.holes {
        let k = if locate(&parts[0].outer, h[0]) == 1 { 0 } else { 1 };
        parts[k].holes.push(h.clone());
    }
    for s in &c.steiner {
        let k = if locate(&parts[0].outer, *s) == 1 { 0 } else { 1 };
        parts[k].steiner.push(*s);
    }
    let mut all = vec![];
    for d in &parts {
        if admit(d).is_err() {
            // cannot happen for a valid triangulation; do not judge it here
            return Ok(());
        }
        let t = solve_plain(d).map_err(|e| format!("a part: {e}"))?;
        oracle::full(d, &t, &vec![Loc::Inside; d.steiner.len()]).map_err(|e| format!("a part: {e}"))?;
        all.extend(t.set(|q| q));
    }
    all.sort_unstable();
    x.nontrivial = true;
    if !c.holes.is_empty() {
        x.tags.push("cut with holes");
    }
    diff("the whole and its two parts", &a.set(|q| q), &all)
}
