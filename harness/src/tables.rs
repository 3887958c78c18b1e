//! The tables TLC exported from the specification (spec/Export.tla).
use serde_json::Value;
use std::collections::HashMap;

pub struct SizeT {
    pub n: usize,
    pub homes: Vec<[i32; 3]>,
    pub kinds: Vec<String>,
    pub orbits: Vec<String>,
    /// obs[piece][g] = x, y, z, mark
    pub obs: Vec<Vec<[i32; 4]>>,
    pub solved: Vec<Vec<bool>>,
    pub twist: Vec<Vec<i32>>,
    pub flip: Vec<Vec<i32>>,
    pub wher: Vec<Vec<usize>>,
    /// inturn[depth][face][place]
    pub inturn: Vec<Vec<Vec<bool>>>,
    /// slice[0 wide, 1 narrow][axis][place]
    pub slice: Vec<Vec<Vec<bool>>>,
    /// coreturns[depth][face]
    pub coreturns: Vec<Vec<bool>>,
    pub layer: Vec<[usize; 3]>,
    pub maxdepth: usize,
    pub home_idx: HashMap<[i32; 3], usize>,
}

pub struct Tables {
    pub rots: Vec<[i32; 3]>,
    pub mult: Vec<Vec<usize>>,
    pub inv: Vec<usize>,
    /// facerot[face][amount-1]
    pub facerot: Vec<[usize; 3]>,
    pub axisrot: Vec<[usize; 3]>,
    pub sizes: HashMap<usize, SizeT>,
}

fn ints(v: &Value) -> Vec<i32> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect()
}
fn a3(v: &Value) -> [i32; 3] {
    ints(v).try_into().unwrap()
}
fn idx3(v: &Value) -> [usize; 3] {
    let x = ints(v);
    [x[0] as usize - 1, x[1] as usize - 1, x[2] as usize - 1]
}
fn bools(v: &Value) -> Vec<bool> {
    v.as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect()
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}

pub fn read_json(path: &str) -> Value {
    serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"))).unwrap()
}

impl Tables {
    pub fn load(path: &str) -> Tables {
        if !std::path::Path::new(path).exists() {
            return Tables { rots: vec![], mult: vec![], inv: vec![], facerot: vec![], axisrot: vec![], sizes: HashMap::new() };
        }
        let v = read_json(path);
        let mut sizes = HashMap::new();
        for s in arr(&v["sizes"]) {
            let homes: Vec<[i32; 3]> = arr(&s["homes"]).iter().map(a3).collect();
            let n = s["n"].as_u64().unwrap() as usize;
            let home_idx = homes.iter().enumerate().map(|(i, h)| (*h, i)).collect();
            sizes.insert(
                n,
                SizeT {
                    n,
                    kinds: arr(&s["kinds"]).iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                    orbits: arr(&s["orbits"]).iter().map(|x| x.to_string()).collect(),
                    obs: arr(&s["obs"])
                        .iter()
                        .map(|r| arr(r).iter().map(|o| ints(o).try_into().unwrap()).collect())
                        .collect(),
                    solved: arr(&s["solved"])
                        .iter()
                        .map(|r| arr(r).iter().map(|b| b.as_bool().unwrap()).collect())
                        .collect(),
                    twist: arr(&s["twist"]).iter().map(ints).collect(),
                    flip: arr(&s["flip"]).iter().map(ints).collect(),
                    wher: arr(&s["where"])
                        .iter()
                        .map(|r| ints(r).iter().map(|x| *x as usize - 1).collect())
                        .collect(),
                    inturn: arr(&s["inturn"]).iter().map(|d| arr(d).iter().map(bools).collect()).collect(),
                    slice: arr(&s["slice"]).iter().map(|d| arr(d).iter().map(bools).collect()).collect(),
                    coreturns: arr(&s["coreturns"]).iter().map(bools).collect(),
                    layer: arr(&s["layer"])
                        .iter()
                        .map(|l| {
                            let x = ints(l);
                            [x[0] as usize, x[1] as usize, x[2] as usize]
                        })
                        .collect(),
                    maxdepth: s["maxdepth"].as_u64().unwrap() as usize,
                    homes,
                    home_idx,
                },
            );
        }
        Tables {
            rots: arr(&v["rots"]).iter().map(a3).collect(),
            mult: arr(&v["mult"])
                .iter()
                .map(|r| ints(r).iter().map(|x| *x as usize - 1).collect())
                .collect(),
            inv: ints(&v["inv"]).iter().map(|x| *x as usize - 1).collect(),
            facerot: arr(&v["facerot"]).iter().map(idx3).collect(),
            axisrot: arr(&v["axisrot"]).iter().map(idx3).collect(),
            sizes,
        }
    }
    pub fn size(&self, n: usize) -> &SizeT {
        &self.sizes[&n]
    }
}

/// Faces in the order of the specification's FaceSeq: R U F L D B.
pub const FACE_NAMES: [&str; 6] = ["R", "U", "F", "L", "D", "B"];
pub const FACE_SIGNED: [i32; 6] = [1, 2, 3, -1, -2, -3];

/// The state of a cube in the specification: a rotation index per home.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Model {
    pub g: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Turn {
    pub face: usize,   // index in FACE_NAMES
    pub amount: usize, // 1..=3
    pub depth: usize,
}

impl Turn {
    pub fn inverse(self) -> Turn {
        Turn { amount: 4 - self.amount, ..self }
    }
    pub fn show(&self) -> String {
        format!("{}{}@{}", FACE_NAMES[self.face], ["", "2", "'"][self.amount - 1], self.depth)
    }
    pub fn json(&self) -> Value {
        serde_json::json!({"f": FACE_SIGNED[self.face], "a": self.amount, "d": self.depth})
    }
}
pub fn show_alg(a: &[Turn]) -> String {
    a.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ")
}
pub fn inverse_alg(a: &[Turn]) -> Vec<Turn> {
    a.iter().rev().map(|t| t.inverse()).collect()
}

impl Model {
    pub fn solved(s: &SizeT) -> Model {
        Model { g: vec![0; s.homes.len()] }
    }
    /// The specification's Turn action, by table lookup.
    pub fn turn(&mut self, t: &Tables, s: &SizeT, m: Turn) {
        let r = t.facerot[m.face][m.amount - 1];
        let layer = &s.inturn[m.depth][m.face];
        for (i, g) in self.g.iter_mut().enumerate() {
            if layer[s.wher[i][*g as usize]] {
                *g = t.mult[r][*g as usize] as u8;
            }
        }
    }
    pub fn alg(&mut self, t: &Tables, s: &SizeT, a: &[Turn]) {
        for m in a {
            self.turn(t, s, *m);
        }
    }
    /// this, then that (both as effects on the solved cube)
    pub fn then(&self, t: &Tables, s: &SizeT, that: &Model) -> Model {
        let g = (0..self.g.len())
            .map(|i| {
                let here = s.wher[i][self.g[i] as usize];
                t.mult[that.g[here] as usize][self.g[i] as usize] as u8
            })
            .collect();
        Model { g }
    }
    pub fn inverse(&self, t: &Tables, s: &SizeT) -> Model {
        let mut g = vec![0u8; self.g.len()];
        for i in 0..self.g.len() {
            let gi = self.g[i] as usize;
            g[s.wher[i][gi]] = t.inv[gi] as u8;
        }
        Model { g }
    }
    pub fn looks_solved(&self, s: &SizeT) -> bool {
        self.g.iter().enumerate().all(|(i, g)| s.solved[i][*g as usize])
    }
    /// The specification's Legal: reachable by turning (sizes 2 and 3).
    pub fn illegal(&self, s: &SizeT) -> Option<String> {
        let mut used = vec![false; s.homes.len()];
        for (i, g) in self.g.iter().enumerate() {
            let p = s.wher[i][*g as usize];
            if used[p] {
                return Some(format!("two pieces at {:?}", s.homes[p]));
            }
            used[p] = true;
        }
        let tw: i32 = self.g.iter().enumerate().map(|(i, g)| s.twist[i][*g as usize]).sum();
        if tw % 3 != 0 {
            return Some(format!("corner twists sum to {tw}"));
        }
        let fl: i32 = self.g.iter().enumerate().map(|(i, g)| s.flip[i][*g as usize]).sum();
        if fl % 2 != 0 {
            return Some(format!("{fl} flipped edges"));
        }
        if s.n == 3 {
            let par = |kind: &str| {
                let ix: Vec<usize> = (0..s.homes.len()).filter(|i| s.kinds[*i] == kind).collect();
                let mut seen = vec![false; s.homes.len()];
                let mut odd = 0;
                for i in ix {
                    let mut j = i;
                    let mut len = 0;
                    while !seen[j] {
                        seen[j] = true;
                        j = s.wher[j][self.g[j] as usize];
                        len += 1;
                    }
                    if len > 0 {
                        odd ^= (len - 1) & 1;
                    }
                }
                odd
            };
            if par("corner") != par("edge") {
                return Some("corner and edge permutation parities differ".into());
            }
        }
        None
    }
    pub fn is_identity(&self) -> bool {
        self.g.iter().all(|g| *g == 0)
    }
    pub fn obs(&self, s: &SizeT) -> Vec<[i32; 4]> {
        self.g.iter().enumerate().map(|(i, g)| s.obs[i][*g as usize]).collect()
    }
    pub fn from_obs(s: &SizeT, obs: &[[i32; 4]]) -> Option<Model> {
        let g = obs
            .iter()
            .enumerate()
            .map(|(i, o)| s.obs[i].iter().position(|x| x == o).map(|x| x as u8))
            .collect::<Option<Vec<_>>>()?;
        Some(Model { g })
    }
}
