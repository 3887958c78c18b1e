//! The specification's pieces and cubes as values of the code.
use crate::observe::*;
use crate::tables::*;
use crate::turns::{project, rand_alg};
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::space::Direction;
use barbarosa::cube_n::{Corner, Cube3, Edge};
use barbarosa::generic::piece::PieceSet;
use nalgebra::{Vector2, Vector3};

pub fn dir(v: i32) -> Direction {
    if v > 0 {
        Direction::Positive
    } else {
        Direction::Negative
    }
}
pub fn corner_of(o: &[i32; 4]) -> Corner {
    Corner { position: Vector3::new(dir(o[0]), dir(o[1]), dir(o[2])), orientation_axis: AXES[o[3] as usize - 1] }
}
pub fn edge_of(o: &[i32; 4]) -> Edge {
    let n = (0..3).find(|a| o[*a] == 0).expect("an edge has a middle coordinate");
    Edge {
        normal_axis: AXES[n],
        slice_position: Vector2::new(dir(o[(n + 1) % 3]), dir(o[(n + 2) % 3])),
        oriented: o[3] == 1,
    }
}
pub struct Cubes<'a> {
    pub t: &'a Tables,
    pub s: &'a SizeT,
    pub proj: Projection,
    /// slots of edges 0..12 then corners 0..8 -> home
    pub home: Vec<usize>,
    /// the rotation that takes the homes of the second half of edges to those of the first
    pub halfturn: Option<usize>,
}
impl<'a> Cubes<'a> {
    pub fn new(ctx: &'a Ctx) -> Option<Cubes<'a>> {
        let proj = project::<Cube3>(ctx)?;
        let s = ctx.t.size(3);
        let home: Vec<usize> = proj.home_of.iter().map(|h| h.unwrap()).collect();
        let halfturn = (1..24).find(|r| (0..6).all(|j| s.wher[home[j + 6]][*r] == home[j]));
        Some(Cubes { t: &ctx.t, s, proj, home, halfturn })
    }
    pub fn build(&self, m: &Model) -> Cube3 {
        let o = m.obs(self.s);
        let edges: [Edge; 12] = std::array::from_fn(|i| edge_of(&o[self.home[i]]));
        let corners: [Corner; 8] = std::array::from_fn(|i| corner_of(&o[self.home[12 + i]]));
        Cube3 { edges: PieceSet::new(edges).expect("legal edges"), corners: PieceSet::new(corners).expect("legal corners") }
    }
    pub fn random(&self, r: &mut Sm, len: usize) -> Model {
        let mut m = Model::solved(self.s);
        m.alg(self.t, self.s, &rand_alg(r, 0, len));
        m
    }
    /// Cubes that have much in common with `m`: its corners, its edges, or all but three edges
    /// of one half of them.
    #[allow(dead_code)]
    pub fn twins(&self, m: &Model, r: &mut Sm) -> Vec<Model> {
        let s = self.s;
        let mut out = vec![];
        let o = loop {
            let o = self.random(r, 30);
            let mut a = m.clone();
            for i in &self.home[0..12] {
                a.g[*i] = o.g[*i];
            }
            if a.illegal(s).is_none() {
                out.push(a);
                break o;
            }
        };
        let mut b = m.clone();
        for i in &self.home[12..20] {
            b.g[*i] = o.g[*i];
        }
        out.push(b);
        for half in [0, 6] {
            let mut c = m.clone();
            let from = half + r.below(4);
            for k in 0..3 {
                let (i, j) = (self.home[from + k], self.home[from + (k + 1) % 3]);
                let (g, h) = (m.g[i] as usize, m.g[j] as usize);
                c.g[i] = (0..24).find(|x| s.wher[i][*x] == s.wher[j][h] && s.flip[i][*x] == s.flip[i][g]).unwrap() as u8;
            }
            out.push(c);
        }
        out
    }
}
