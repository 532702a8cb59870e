//! The harness's own parts, checked before anything is judged with them.

use crate::case::*;
use crate::exact::*;
use crate::gen;
use crate::input::Input;
use crate::oracle;
use crate::props;
use crate::rng::Rng;
use crate::tri::Sol;
use crate::worker;

fn arithmetic(rng: &mut Rng) -> Result<(), String> {
    // filtered predicates against the exact ones, on near-degenerate inputs; and on small integers
    // against i128
    for _ in 0..20_000 {
        let k = rng.range(1, 6) as i64;
        let mut v = || p(rng.range(-k, k) as f64, rng.range(-k, k) as f64);
        let (a, b, c, d) = (v(), v(), v(), v());
        let det = |a: P, b: P, c: P| {
            ((b.x - a.x) as i128) * ((c.y - a.y) as i128) - ((b.y - a.y) as i128) * ((c.x - a.x) as i128)
        };
        let o = det(a, b, c);
        if orient(a, b, c) != o.signum() as i32 || orient_exact(a, b, c) != o.signum() as i32 {
            return Err(format!("orient {a:?} {b:?} {c:?}"));
        }
        let lift = |q: P| {
            let (x, y) = ((q.x - d.x) as i128, (q.y - d.y) as i128);
            (x, y, x * x + y * y)
        };
        let (a2, b2, c2) = (lift(a), lift(b), lift(c));
        let m = a2.0 * (b2.1 * c2.2 - b2.2 * c2.1) - a2.1 * (b2.0 * c2.2 - b2.2 * c2.0)
            + a2.2 * (b2.0 * c2.1 - b2.1 * c2.0);
        if incircle(a, b, c, d) != m.signum() as i32 || incircle_exact(a, b, c, d) != m.signum() as i32 {
            return Err(format!("incircle {a:?} {b:?} {c:?} {d:?}"));
        }
        // the same configuration far away and nudged by an ulp
        let s = 2f64.powi(rng.range(-40, 40) as i32);
        let t = |q: P| p(q.x * s + 1.0, q.y * s - 3.0);
        let n = |q: P| if q.x == 0.0 { q } else { p(f64::from_bits(q.x.to_bits() + 1), q.y) };
        let (a, b, c, d) = (t(a), t(b), n(t(c)), t(d));
        if orient(a, b, c) != orient_exact(a, b, c) {
            return Err(format!("orient filter {a:?} {b:?} {c:?}"));
        }
        if incircle(a, b, c, d) != incircle_exact(a, b, c, d) {
            return Err(format!("incircle filter {a:?} {b:?} {c:?} {d:?}"));
        }
    }
    Ok(())
}

/// every oracle must reject damaged triangulations
fn oracles(rng: &mut Rng) -> Result<(), String> {
    let sq = Case {
        family: "square".into(),
        outer: vec![p(0., 0.), p(4., 0.), p(5., 4.), p(0., 4.)],
        holes: vec![],
        steiner: vec![p(2., 1.)],
        aux: 0,
    };
    let locs = admit(&sq)?;
    let good = vec![[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]];
    let sol = |tri: Vec<[usize; 3]>| Sol { pts: sq.points(), tri };
    oracle::full(&sq, &sol(good.clone()), &locs).map_err(|e| format!("good rejected: {e}"))?;
    for k in 0..4 {
        let mut t = good.clone();
        t.remove(k);
        if oracle::full(&sq, &sol(t), &locs).is_ok() {
            return Err("a missing triangle is accepted".into());
        }
        let mut t = good.clone();
        t.push(good[k]);
        if oracle::full(&sq, &sol(t), &locs).is_ok() {
            return Err("a doubled triangle is accepted".into());
        }
        let mut t = good.clone();
        t[k].swap(0, 1);
        if oracle::full(&sq, &sol(t), &locs).is_ok() {
            return Err("a clockwise triangle is accepted".into());
        }
    }
    if oracle::full(&sq, &sol(vec![[0, 1, 2], [0, 2, 3]]), &locs).is_ok() {
        return Err("an unused Steiner point is accepted".into());
    }
    let kite = Case {
        family: "kite".into(),
        outer: vec![p(0., 0.), p(4., -1.), p(8., 0.), p(4., 1.)],
        holes: vec![],
        steiner: vec![],
        aux: 0,
    };
    let locs = admit(&kite)?;
    let s = |tri: Vec<[usize; 3]>| Sol { pts: kite.points(), tri };
    oracle::full(&kite, &s(vec![[0, 1, 3], [1, 2, 3]]), &locs)?;
    if oracle::full(&kite, &s(vec![[0, 1, 2], [0, 2, 3]]), &locs).is_ok() {
        return Err("a pair that is not Delaunay is accepted".into());
    }
    let _ = rng;
    Ok(())
}

fn generators(rng: &mut Rng) -> Result<(), String> {
    // the fast domain test against the definition, on valid and invalid inputs
    let mut both = [0; 2];
    for _ in 0..3000 {
        let c = gen::raw(rng);
        if c.points().iter().all(|v| v.x.abs() < 1e60 && v.y.abs() < 1e60) && bits(&c.points()) <= 300 {
            if !rings_agree(&c) {
                return Err(format!("the two domain tests disagree: {}", c.write()));
            }
            both[rings_ok_slow(&c).is_ok() as usize] += 1;
        }
    }
    for _ in 0..300 {
        let c = gen::medium(rng, 120, true);
        let d = gen::mutate(rng, &c, true);
        if !rings_agree(&c) || !rings_agree(&d) {
            return Err(format!("the two domain tests disagree: {}", d.write()));
        }
        both[rings_ok_slow(&d).is_ok() as usize] += 1;
    }
    if both[0] < 50 || both[1] < 50 {
        return Err(format!("the domain tests were not both exercised: {both:?}"));
    }
    for kind in gen::KINDS {
        for n in [60, 150, 333, 700] {
            for _ in 0..3 {
                let seed = rng.u64() >> 16;
                let c = gen::big(kind, n, seed);
                let l = admit(&c).map_err(|e| format!("family {kind} size {n} seed {seed}: {e}"))?;
                if l.iter().any(|l| *l != Loc::Inside) {
                    return Err(format!("family {kind} size {n} seed {seed}: a Steiner point is not inside"));
                }
            }
        }
    }
    for pr in props::all() {
        for i in 0..200 {
            let mut r = worker::case_rng(99, pr.id, i);
            let (a, _) = worker::fresh(&pr, &mut r, false);
            let b = Input::read(&a.write())?;
            if b.hash() != a.hash() || b.write() != a.write() {
                return Err(format!("{}: the text form loses something: {}", pr.id, a.write()));
            }
        }
    }
    Ok(())
}

pub fn run() -> i32 {
    let mut rng = Rng::new(7);
    for (n, f) in [
        ("arithmetic", arithmetic as fn(&mut Rng) -> Result<(), String>),
        ("oracles", oracles),
        ("generators", generators),
    ] {
        if let Err(e) = f(&mut rng) {
            println!("selftest {n}: {e}");
            return 2;
        }
    }
    println!("selftest: ok");
    0
}
