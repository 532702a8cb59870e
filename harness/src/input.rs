//! What a check consumes, and its text form, which is also the replay file's body.

use crate::case::Case;
use crate::gen;

#[derive(Clone, Debug)]
pub enum Input {
    Geo(Case),
    /// the bytes of a file handed to the loader
    Text(Vec<u8>),
    /// a member of a family of large inputs
    Big { kind: String, n: usize, seed: u64 },
}

impl Input {
    pub fn write(&self) -> String {
        match self {
            Input::Geo(c) => format!("INPUT geo\n{}", c.write()),
            Input::Text(b) => {
                let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
                let shown: String = String::from_utf8_lossy(b)
                    .chars()
                    .take(2000)
                    .flat_map(|c| c.escape_default())
                    .collect();
                format!("INPUT text\n# {shown}\n{hex}\n")
            }
            Input::Big { kind, n, seed } => format!("INPUT big\n{kind} {n} {seed}\n"),
        }
    }

    pub fn read(s: &str) -> Result<Input, String> {
        let at = s.find("INPUT ").ok_or("no INPUT line")?;
        let s = &s[at..];
        let (head, body) = s.split_once('\n').ok_or("no input body")?;
        match head.trim() {
            "INPUT geo" => Ok(Input::Geo(Case::read(body)?)),
            "INPUT text" => {
                let hex = body
                    .lines()
                    .find(|l| !l.starts_with('#'))
                    .unwrap_or("")
                    .trim();
                if hex.len() % 2 != 0 {
                    return Err("odd hex".into());
                }
                let b: Result<Vec<u8>, _> = (0..hex.len() / 2)
                    .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16))
                    .collect();
                Ok(Input::Text(b.map_err(|e| e.to_string())?))
            }
            "INPUT big" => {
                let v: Vec<&str> = body.split_whitespace().collect();
                if v.len() < 3 {
                    return Err("bad big input".into());
                }
                Ok(Input::Big {
                    kind: v[0].into(),
                    n: v[1].parse().map_err(|_| "bad n")?,
                    seed: v[2].parse().map_err(|_| "bad seed")?,
                })
            }
            h => Err(format!("unknown input {h}")),
        }
    }

    pub fn hash(&self) -> u64 {
        match self {
            Input::Geo(c) => c.hash(),
            Input::Text(b) => {
                let mut h = 0xcbf2_9ce4_8422_2325u64;
                for x in b {
                    h ^= *x as u64;
                    h = h.wrapping_mul(0x100_0000_01b3);
                }
                h
            }
            Input::Big { kind, n, seed } => {
                crate::rng::hash_str(&format!("{kind} {n} {seed}"))
            }
        }
    }

    pub fn one_line(&self) -> String {
        match self {
            Input::Geo(c) => c.one_line(),
            Input::Text(b) => String::from_utf8_lossy(b)
                .chars()
                .flat_map(|c| c.escape_default())
                .collect(),
            Input::Big { kind, n, seed } => format!("family {kind}, size {n}, seed {seed}"),
        }
    }

    /// number of points, for the fuel limit
    pub fn size(&self) -> usize {
        match self {
            Input::Geo(c) => c.len(),
            Input::Text(b) => b.len() / 4,
            Input::Big { n, .. } => *n,
        }
    }

    pub fn geo(&self) -> &Case {
        match self {
            Input::Geo(c) => c,
            _ => panic!("this property takes a geometric case"),
        }
    }

    /// the geometry, whatever the form
    pub fn case(&self) -> Option<Case> {
        match self {
            Input::Geo(c) => Some(c.clone()),
            Input::Big { kind, n, seed } => Some(gen::big(kind, *n, *seed)),
            Input::Text(_) => None,
        }
    }
}
