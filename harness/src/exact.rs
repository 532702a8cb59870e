//! Exact geometric predicates, independent of the `robust` crate the code under test uses.
//! A floating-point filter with a proven error bound decides the easy cases; everything else is
//! computed in a fixed-width two's complement integer wide enough for every admitted input.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub x: f64,
    pub y: f64,
}

pub const fn p(x: f64, y: f64) -> P {
    P { x, y }
}

const W: usize = 24; // 1536 bits

#[derive(Clone, Copy)]
pub struct Wide([u64; W]);

impl Wide {
    pub const ZERO: Wide = Wide([0; W]);

    /// v * 2^-e as an integer; the caller guarantees that it is one and fits.
    pub fn from_f64(v: f64, e: i32) -> Wide {
        if v == 0.0 {
            return Wide::ZERO;
        }
        let (m, ex) = decompose(v.abs());
        let sh = ex - e;
        assert!(sh >= 0 && (sh as usize) + 64 < 64 * W, "wide: out of range");
        let mut r = [0u64; W];
        let (q, b) = ((sh / 64) as usize, (sh % 64) as u32);
        r[q] |= m << b;
        if b > 0 && q + 1 < W {
            r[q + 1] |= m >> (64 - b);
        }
        let r = Wide(r);
        if v < 0.0 {
            r.neg()
        } else {
            r
        }
    }

    pub fn neg(self) -> Wide {
        let mut r = [0u64; W];
        let mut c = true;
        for i in 0..W {
            let (v, o) = (!self.0[i]).overflowing_add(c as u64);
            r[i] = v;
            c = o;
        }
        Wide(r)
    }

    pub fn add(self, o: Wide) -> Wide {
        let mut r = [0u64; W];
        let mut c = 0u64;
        for i in 0..W {
            let t = self.0[i] as u128 + o.0[i] as u128 + c as u128;
            r[i] = t as u64;
            c = (t >> 64) as u64;
        }
        Wide(r)
    }

    pub fn sub(self, o: Wide) -> Wide {
        self.add(o.neg())
    }

    pub fn is_neg(&self) -> bool {
        self.0[W - 1] >> 63 == 1
    }

    pub fn sign(&self) -> i32 {
        if self.is_neg() {
            -1
        } else if self.0.iter().all(|x| *x == 0) {
            0
        } else {
            1
        }
    }

    pub fn abs(self) -> Wide {
        if self.is_neg() {
            self.neg()
        } else {
            self
        }
    }

    fn top(&self) -> usize {
        (0..W).rev().find(|i| self.0[*i] != 0).map_or(0, |i| i + 1)
    }

    pub fn mul(self, o: Wide) -> Wide {
        let s = self.is_neg() != o.is_neg();
        let (a, b) = (self.abs(), o.abs());
        let (ta, tb) = (a.top(), b.top());
        assert!(ta + tb < W, "wide: product out of range");
        let mut r = [0u64; W];
        for i in 0..ta {
            let mut c = 0u128;
            for j in 0..tb {
                let t = a.0[i] as u128 * b.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + tb] = c as u64;
        }
        let r = Wide(r);
        if s {
            r.neg()
        } else {
            r
        }
    }
}

/// finite positive v = m * 2^e with m odd (or m = 0)
fn decompose(v: f64) -> (u64, i32) {
    let bits = v.to_bits();
    let be = ((bits >> 52) & 0x7ff) as i32;
    let fr = bits & ((1 << 52) - 1);
    let (mut m, mut e) = if be == 0 {
        (fr, -1074)
    } else {
        (fr | (1 << 52), be - 1075)
    };
    if m == 0 {
        return (0, 0);
    }
    let tz = m.trailing_zeros();
    m >>= tz;
    e += tz as i32;
    (m, e)
}

/// exponent of the lowest set bit over all coordinates
pub fn min_exp(pts: &[P]) -> i32 {
    let mut e = i32::MAX;
    for q in pts {
        for v in [q.x, q.y] {
            if v != 0.0 {
                e = e.min(decompose(v.abs()).1);
            }
        }
    }
    if e == i32::MAX {
        0
    } else {
        e
    }
}

/// number of bits needed to write every coordinate as an integer multiple of one power of two
pub fn bits(pts: &[P]) -> i32 {
    let lo = min_exp(pts);
    let mut hi = lo;
    for q in pts {
        for v in [q.x, q.y] {
            if v != 0.0 {
                let (m, e) = decompose(v.abs());
                hi = hi.max(e + 64 - m.leading_zeros() as i32);
            }
        }
    }
    hi - lo
}

const EPS: f64 = 1.1102230246251565e-16;

/// > 0: a, b, c counter clockwise; < 0 clockwise; 0 collinear. Exact.
pub fn orient(a: P, b: P, c: P) -> i32 {
    let l = (a.x - c.x) * (b.y - c.y);
    let r = (a.y - c.y) * (b.x - c.x);
    let det = l - r;
    let err = (3.0 + 16.0 * EPS) * EPS * (l.abs() + r.abs());
    // the subnormal guard keeps underflow out of the filter
    if det.abs() > err && det.abs() > 1e-250 {
        return if det > 0.0 { 1 } else { -1 };
    }
    orient_exact(a, b, c)
}

pub fn orient_exact(a: P, b: P, c: P) -> i32 {
    let e = min_exp(&[a, b, c]);
    let f = |v: f64| Wide::from_f64(v, e);
    let acx = f(a.x).sub(f(c.x));
    let acy = f(a.y).sub(f(c.y));
    let bcx = f(b.x).sub(f(c.x));
    let bcy = f(b.y).sub(f(c.y));
    acx.mul(bcy).sub(acy.mul(bcx)).sign()
}

/// for a, b, c counter clockwise: > 0 when d is strictly inside their circle. Exact.
pub fn incircle(a: P, b: P, c: P, d: P) -> i32 {
    let (adx, ady) = (a.x - d.x, a.y - d.y);
    let (bdx, bdy) = (b.x - d.x, b.y - d.y);
    let (cdx, cdy) = (c.x - d.x, c.y - d.y);
    let (bc, cb) = (bdx * cdy, cdx * bdy);
    let (ca, ac) = (cdx * ady, adx * cdy);
    let (ab, ba) = (adx * bdy, bdx * ady);
    let al = adx * adx + ady * ady;
    let bl = bdx * bdx + bdy * bdy;
    let cl = cdx * cdx + cdy * cdy;
    let det = al * (bc - cb) + bl * (ca - ac) + cl * (ab - ba);
    let perm =
        (bc.abs() + cb.abs()) * al + (ca.abs() + ac.abs()) * bl + (ab.abs() + ba.abs()) * cl;
    let err = (10.0 + 96.0 * EPS) * EPS * perm;
    if det.abs() > err && det.abs() > 1e-250 {
        return if det > 0.0 { 1 } else { -1 };
    }
    incircle_exact(a, b, c, d)
}

pub fn incircle_exact(a: P, b: P, c: P, d: P) -> i32 {
    let e = min_exp(&[a, b, c, d]);
    let f = |v: f64| Wide::from_f64(v, e);
    let (dx, dy) = (f(d.x), f(d.y));
    let g = |q: P| (f(q.x).sub(dx), f(q.y).sub(dy));
    let (ax, ay) = g(a);
    let (bx, by) = g(b);
    let (cx, cy) = g(c);
    let lift = |x: Wide, y: Wide| x.mul(x).add(y.mul(y));
    let m = |p: Wide, q: Wide, r: Wide, s: Wide| p.mul(q).sub(r.mul(s));
    let t1 = lift(ax, ay).mul(m(bx, cy, cx, by));
    let t2 = lift(bx, by).mul(m(cx, ay, ax, cy));
    let t3 = lift(cx, cy).mul(m(ax, by, bx, ay));
    t1.add(t2).add(t3).sign()
}

/// twice the signed area of a closed ring, as an exact integer at scale 2^(2e)
pub fn area2(ring: &[P], e: i32) -> Wide {
    let mut s = Wide::ZERO;
    let n = ring.len();
    for i in 0..n {
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        let f = |v: f64| Wide::from_f64(v, e);
        s = s.add(f(a.x).mul(f(b.y)).sub(f(b.x).mul(f(a.y))));
    }
    s
}

fn between(a: f64, b: f64, v: f64) -> bool {
    (a <= v && v <= b) || (b <= v && v <= a)
}

/// c lies on the closed segment ab
pub fn on_segment(a: P, b: P, c: P) -> bool {
    between(a.x, b.x, c.x) && between(a.y, b.y, c.y) && orient(a, b, c) == 0
}

/// the closed segments ab and cd share a point
pub fn touch(a: P, b: P, c: P, d: P) -> bool {
    if a.x.max(b.x) < c.x.min(d.x)
        || c.x.max(d.x) < a.x.min(b.x)
        || a.y.max(b.y) < c.y.min(d.y)
        || c.y.max(d.y) < a.y.min(b.y)
    {
        return false;
    }
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    (o1 == 0 && on_segment(a, b, c))
        || (o2 == 0 && on_segment(a, b, d))
        || (o3 == 0 && on_segment(c, d, a))
        || (o4 == 0 && on_segment(c, d, b))
}

/// position of q with respect to a simple ring: 1 inside, 0 on the boundary, -1 outside
pub fn locate(ring: &[P], q: P) -> i32 {
    let n = ring.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        if on_segment(a, b, q) {
            return 0;
        }
        if (a.y > q.y) != (b.y > q.y) {
            let o = orient(a, b, q);
            // edge crosses the horizontal line through q; is q left of it?
            if (b.y > a.y) == (o > 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        1
    } else {
        -1
    }
}
