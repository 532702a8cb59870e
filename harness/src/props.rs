//! The registry: for every property its domain, its generator, its oracle, the builds it runs on
//! and the number of cases.

use crate::case::*;
use crate::check::*;
use crate::gen::{self, Opts};
use crate::input::Input;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Domain {
    /// valid geometry, every Steiner point strictly inside the region
    Inside,
    /// valid geometry, Steiner points also in holes and outside
    Anywhere,
    /// anything at all: only memory safety is claimed
    Raw,
    /// not geometric
    Free,
}

/// what a crash or panic of the code under test means
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Crash {
    /// the property promises a result
    Violation,
    /// only memory errors count: panics, exhausted fuel and exhausted stack do not
    MemoryOnly,
}

pub struct Ctx {
    pub locs: Vec<Loc>,
    pub tags: Vec<&'static str>,
    pub nontrivial: bool,
    pub digest: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(locs: Vec<Loc>, thorough: bool) -> Ctx {
        Ctx {
            locs,
            tags: vec![],
            nontrivial: false,
            digest: 0,
            thorough,
        }
    }
    pub fn inside(&self) -> usize {
        self.locs.iter().filter(|l| **l == Loc::Inside).count()
    }
}

pub struct Prop {
    pub id: &'static str,
    pub domain: Domain,
    pub crash: Crash,
    /// builds and their share of the cases
    pub configs: &'static [(&'static str, u64)],
    pub quick: u64,
    pub thorough: u64,
    /// how many of the quick cases are members of the large families, and up to which size
    pub big: (u64, usize),
    /// mix coverage-guided mutation into the generation
    pub guided: bool,
    /// fuel allowance relative to one triangulation
    pub fuel: u64,
    pub gen: fn(&mut Rng, bool) -> Input,
    pub check: fn(&Input, &mut Ctx) -> Result<(), String>,
    pub rule: &'static str,
}

/// the general distribution of valid inputs: mostly small, a few of several hundred points
fn geo(rng: &mut Rng, outside: bool, thorough: bool) -> Case {
    let (a, b) = if thorough { (60, 900) } else { (150, 500) };
    if rng.chance(1, a) {
        return gen::medium(rng, b, outside);
    }
    let max_n = match rng.below(20) {
        0 => 120,
        _ => 60,
    };
    gen::gen(
        rng,
        Opts {
            inside: true,
            outside,
            holes: true,
            max_n,
        },
    )
}

fn g_inside(rng: &mut Rng, t: bool) -> Input {
    Input::Geo(geo(rng, false, t))
}

fn g_any(rng: &mut Rng, t: bool) -> Input {
    let o = rng.chance(1, 4);
    Input::Geo(geo(rng, o, t))
}

fn g_outside(rng: &mut Rng, t: bool) -> Input {
    Input::Geo(geo(rng, true, t))
}

fn g_small(rng: &mut Rng, _t: bool) -> Input {
    let o = rng.chance(1, 4);
    Input::Geo(gen::gen(
        rng,
        Opts {
            inside: true,
            outside: o,
            holes: true,
            max_n: 25,
        },
    ))
}

fn g_extreme(rng: &mut Rng, _t: bool) -> Input {
    Input::Geo(gen::extreme(rng))
}

fn g_text(rng: &mut Rng, _t: bool) -> Input {
    Input::Text(crate::text::gen_bad(rng))
}

fn g_big(rng: &mut Rng, t: bool) -> Input {
    gen::big_input(rng, t)
}

fn g_even(rng: &mut Rng, _t: bool) -> Input {
    Input::Big {
        kind: rng.pick(&EVEN).to_string(),
        n: 400 + rng.below(400),
        seed: rng.u64() >> 16,
    }
}

fn g_raw(rng: &mut Rng, t: bool) -> Input {
    if rng.chance(1, 3) {
        let o = rng.chance(1, 2);
        Input::Geo(geo(rng, o, t))
    } else {
        Input::Geo(gen::raw(rng))
    }
}

const ALL4: &[(&str, u64)] = &[("r64", 3), ("c64", 2), ("r32", 2), ("c32", 1)];
const REL2: &[(&str, u64)] = &[("r64", 6), ("r32", 2)];
const R64: &[(&str, u64)] = &[("r64", 8)];
const M64: &[(&str, u64)] = &[("r64m", 5), ("c64m", 2), ("r32m", 1)];

const MEM: &[(&str, u64)] = &[("asan", 5), ("c64", 3)];
const MEMM: &[(&str, u64)] = &[("asanm", 4), ("c64m", 4)];

const GEO: &str = "valid inputs (simple outer ring, disjoint simple holes strictly inside, \
distinct points, no Steiner point on an edge) from twelve structured families on integer lattices \
and reals, nineteen families that scale to large sizes, mixed with coverage-guided mutation; a case is non-trivial when";

macro_rules! prop {
    ($id:literal, $dom:ident, $cfg:ident, $q:expr, $t:expr, $guided:expr, $fuel:expr, $gen:ident, $check:expr, $rule:expr) => {
        Prop {
            id: $id,
            domain: Domain::$dom,
            crash: Crash::Violation,
            configs: $cfg,
            quick: $q,
            thorough: $t,
            big: (0, 0),
            guided: $guided,
            fuel: $fuel,
            gen: $gen,
            check: $check,
            rule: $rule,
        }
    };
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![
        prop!("C01", Anywhere, ALL4, 240_000, 8_000_000, true, 1, g_any, c01,
            "it has a hole, a Steiner point or a reflex vertex (a plain convex polygon is trivial)"),
        prop!("C02", Anywhere, REL2, 450_000, 12_000_000, true, 1, g_any, c02,
            "its triangulation has at least two triangles"),
        prop!("C03", Anywhere, REL2, 400_000, 12_000_000, true, 1, g_any, c03,
            "it has a hole, a Steiner point or a reflex vertex"),
        prop!("C04", Anywhere, REL2, 360_000, 12_000_000, true, 1, g_any, c04,
            "at least one ring edge is missing from the unconstrained Delaunay triangulation or a hole is present (approximated: it has a hole, or a reflex vertex)"),
        prop!("C05", Anywhere, REL2, 380_000, 12_000_000, true, 1, g_any, c05,
            "it has at least one Steiner point or hole"),
        prop!("C06", Anywhere, REL2, 380_000, 12_000_000, true, 1, g_any, c06,
            "its triangulation has an interior edge"),
        prop!("C07", Anywhere, REL2, 240_000, 8_000_000, true, 2, g_outside, c07,
            "it has a Steiner point outside or in a hole and no cocircular tie"),
        prop!("C08", Anywhere, REL2, 140_000, 5_000_000, true, 12, g_any, c08,
            "its triangulation has an interior edge and no cocircular tie (so the triangulation is unique)"),
        prop!("C09", Anywhere, REL2, 140_000, 5_000_000, true, 12, g_any, c09,
            "its triangulation has an interior edge and no cocircular tie (so the triangulation is unique)"),
        prop!("C10", Anywhere, R64, 60_000, 2_000_000, false, 40, g_any, c10,
            "its triangulation has an interior edge"),
        prop!("C11", Anywhere, R64, 300_000, 8_000_000, false, 8, g_any, c11,
            "its points were added by at least three builder calls"),
        prop!("C12", Anywhere, R64, 240_000, 8_000_000, false, 12, g_any, c12,
            "its triangulation has at least two triangles"),
        prop!("C16", Anywhere, REL2, 180_000, 5_000_000, false, 15, g_small, crate::text::c16,
            "the file has a HOLE or STEINER section or a layout variation (CRLF, blank lines, tabs, no final newline, exponent or signed numbers)"),
        prop!("C17", Free, R64, 240_000, 6_000_000, false, 3, g_text, crate::text::c17,
            "the model grammar rejects the file"),
        prop!("C18", Anywhere, ALL4, 200_000, 6_000_000, false, 1, g_any, c18,
            "its triangulation has an interior edge and no cocircular tie (so the triangulation is unique)"),
        prop!("C19", Free, R64, 120, 1_500, false, 1, g_big, c19,
            "every member of the large families is non-trivial"),
        prop!("C29", Free, R64, 400, 6_000, false, 5, g_even, c29,
            "every pair of members of these families is non-trivial"),
        prop!("C30", Anywhere, REL2, 240_000, 8_000_000, true, 12, g_any, c30,
            "its triangulation has at least two triangles"),
        prop!("C21", Anywhere, REL2, 360_000, 12_000_000, true, 1, g_extreme, c21,
            "its triangulation has an interior edge and its coordinates are outside of the ordinary range (scaled by a power of two, an ulp wide lattice, a large offset, or anisotropic)"),
        prop!("C22", Inside, REL2, 200_000, 7_000_000, true, 2, g_inside, c22,
            "the new point destroys at least one triangle and keeps at least one"),
        prop!("C23", Inside, REL2, 200_000, 7_000_000, true, 3, g_inside, c23,
            "it has an interior edge between two vertices of the outer ring, and no cocircular tie"),
    ];
    v.push(Prop {
        crash: Crash::MemoryOnly,
        ..prop!("C20", Raw, MEM, 130_000, 4_000_000, true, 1, g_raw, c20,
            "arbitrary input, valid or not: random and degenerate rings, duplicates, self-intersections, touching or nested holes, points on edges, non-finite coordinates, empty rings; plus arbitrary lookups; a case is non-trivial when it is not a valid input")
    });
    v.push(Prop {
        crash: Crash::MemoryOnly,
        ..prop!("C31", Raw, R64, 600, 12_000, true, 1, g_raw, crate::miri::c31,
            "arbitrary input, valid or not, of at most 60 points; a case is non-trivial when Miri interpreted it and it has at least two triangles or ends in a panic")
    });
    #[cfg(feature = "mesh")]
    {
        use crate::observe::*;
        v.push(prop!("C13", Anywhere, M64, 140_000, 4_000_000, true, 1, g_any, c13,
            "at least one rotation happened"));
        v.push(prop!("C14", Anywhere, M64, 60_000, 2_000_000, true, 1, g_any, c14,
            "at least one rotation happened"));
        v.push(Prop {
            crash: Crash::MemoryOnly,
            ..prop!("C24", Raw, MEMM, 40_000, 1_500_000, true, 1, g_raw, c24,
                "lookups with arbitrary, stale and foreign ids from every observer callback; a case is non-trivial when the observer made at least one lookup with an id that does not exist")
        });
        v.push(prop!("C25", Anywhere, M64, 120_000, 4_000_000, true, 1, g_any, c25,
            "at least one common side of two triangles was asked about"));
        v.push(prop!("C26", Anywhere, M64, 120_000, 4_000_000, true, 1, g_any, c26,
            "it has a hole or a Steiner point"));
        v.push(prop!("C27", Anywhere, M64, 120_000, 4_000_000, true, 1, g_any, c27,
            "a lookup was made for a node that had left the front"));
        v.push(prop!("C28", Anywhere, M64, 120_000, 4_000_000, true, 1, g_any, c28,
            "at least one rotation happened"));
        v.push(prop!("C15", Anywhere, M64, 50_000, 2_000_000, true, 8, g_any, c15,
            "at least one rotation happened"));
    }
    v.sort_by_key(|p| p.id);
    for p in v.iter_mut() {
        p.big = match p.id {
            "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C11" | "C12" | "C13" | "C26" => (160, 80_000),
            "C30" => (600, 80_000),
            "C16" => (160, 80_000),
            "C07" | "C21" => (160, 8_000),
            "C10" => (60, 8_000),
            "C08" | "C09" | "C22" | "C23" => (120, 5_000),
            "C14" | "C15" | "C25" | "C27" => (120, 5_000),
            "C28" => (60, 300),
            "C18" => (160, 1_500),
            "C20" => (60, 5_000),
            "C24" => (60, 5_000),
            _ => (0, 0),
        };
    }
    v
}

pub fn rule(p: &Prop) -> String {
    match p.id {
        "C16" | "C17" | "C19" | "C20" | "C24" | "C29" | "C31" => p.rule.to_string(),
        _ => format!("{GEO} {}", p.rule),
    }
}

/// is the input in the property's domain? returns where its Steiner points lie
pub fn domain(p: &Prop, input: &Input) -> Option<Vec<Loc>> {
    match (p.domain, input) {
        (Domain::Raw, _) | (Domain::Free, _) => Some(vec![]),
        (_, Input::Big { kind, n, seed }) => {
            domain(p, &Input::Geo(gen::big(kind, *n, *seed)))
        }
        (Domain::Anywhere, Input::Geo(c)) => admit(c).ok(),
        (Domain::Inside, Input::Geo(c)) => {
            admit(c).ok().filter(|l| l.iter().all(|x| *x == Loc::Inside))
        }
        _ => None,
    }
}

pub fn assumptions(p: &Prop) -> Vec<&'static str> {
    let mut v = vec![];
    if matches!(p.domain, Domain::Inside | Domain::Anywhere) {
        v.push("valid input: simple outer ring, disjoint simple holes strictly inside it, all points distinct, no Steiner point on a ring edge, coordinates representable in the float type and, unless zero, between 1e-60 and 1e60 in magnitude");
        v.push("the oracle's exact integer arithmetic and domain test are right (selftest compares them with i128 and damages known triangulations)");
    }
    if p.id == "C31" {
        v.push("Miri's model of the language is its definition, with Tree Borrows for half of the inputs and Stacked Borrows for the others");
    } else if p.crash == Crash::MemoryOnly {
        v.push("memory errors are those AddressSanitizer, the standard library's unsafe-precondition checks or a fatal signal report");
    }
    if p.id == "C19" {
        v.push("the large families are valid by construction (every other check admits their members exactly)");
    }
    v
}
