//! Run in Miri by the check of C31: triangulates the inputs that come in on standard input, one a
//! line as hexadecimal words, and answers each with a line. Only what Miri says matters.

use poly2tri_rs::{Builder, Edge, Observer, Point, PointId, Sweeper, TriangleId};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// asks for the diagnostics wherever it can
struct Nosy;

fn ask(s: &Sweeper) {
    std::hint::black_box((s.verify_triangles(), s.illegal_triangles()));
}

impl Observer for Nosy {
    fn exit_point_event(&mut self, _: PointId, s: &Sweeper) {
        ask(s);
    }
    fn edge_event(&mut self, _: Edge, s: &Sweeper) {
        ask(s);
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, s: &Sweeper) {
        ask(s);
    }
    fn legalized(&mut self, _: TriangleId, s: &Sweeper) {
        ask(s);
    }
}

struct Quiet;
impl Observer for Quiet {}

type Ring = (Vec<Point>, Vec<Box<usize>>);

fn ring(w: &mut impl Iterator<Item = u64>) -> Ring {
    let n = w.next().unwrap() as usize;
    let mut f = || f64::from_bits(w.next().unwrap());
    let p = (0..n).map(|_| Point::new(f(), f())).collect();
    (p, (0..n).map(Box::new).collect())
}

fn run(line: &str) {
    let mut w = line.split(' ').map(|v| u64::from_str_radix(v, 16).unwrap());
    let nosy = w.next().unwrap() == 1;
    let mut b = Builder::new(ring(&mut w));
    for _ in 0..w.next().unwrap() {
        b = b.add_hole(ring(&mut w));
    }
    let (p, d) = ring(&mut w);
    let mut one = true;
    for (p, d) in p.into_iter().zip(d) {
        b = if one {
            b.add_steiner_point(p, d)
        } else {
            b.add_steiner_points((vec![p], vec![d]))
        };
        one = !one;
    }
    let mut t = if nosy {
        b.build().triangulate_with_observer(&mut Nosy)
    } else {
        b.build().triangulate_with_observer(&mut Quiet)
    };
    let mut sum = t.triangle_list_indices().iter().sum::<u32>() as f64;
    sum += **t.data().last().unwrap() as f64;
    let first = t.next();
    sum += first.map_or(0.0, |v| v.points[0].x);
    sum += t.map(|v| v.points[1].y).sum::<f64>();
    std::hint::black_box(sum);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let ok = catch_unwind(AssertUnwindSafe(|| run(&line))).is_ok();
        println!("{}", if ok { "returned" } else { "panicked" });
        std::io::stdout().flush().unwrap();
    }
}
