//! Patches, splines and noise.
use super::{
    Bw,
    ent::{Ent, Sym},
    pack_signed,
};

#[derive(Clone, Debug, PartialEq)]
pub struct PBlend {
    pub mode: u32,
    pub alpha: u32,
    pub clamp: bool,
}
impl PBlend {
    pub fn of(mode: u32) -> PBlend {
        PBlend { mode, alpha: 0, clamp: false }
    }
}
#[derive(Clone, Debug)]
pub struct Patch {
    pub src: u32,
    /// x, y, width, height in the reference
    pub rect: (u32, u32, u32, u32),
    /// positions, with the blending of colour and of each extra channel
    pub at: Vec<((u32, u32), Vec<PBlend>)>,
}
fn emit(bw: &mut Bw, contexts: usize, s: &[Sym]) {
    let mut e = Ent::auto(contexts);
    e.prepare(&[s]);
    e.write_header(bw);
    e.write_tokens(bw, s);
}
pub fn patch_syms(ps: &[Patch], necs: usize) -> Vec<Sym> {
    let mut s = vec![Sym::Lit(0, ps.len() as u32)];
    for p in ps {
        s.push(Sym::Lit(1, p.src));
        s.push(Sym::Lit(3, p.rect.0));
        s.push(Sym::Lit(3, p.rect.1));
        s.push(Sym::Lit(2, p.rect.2 - 1));
        s.push(Sym::Lit(2, p.rect.3 - 1));
        s.push(Sym::Lit(7, p.at.len() as u32 - 1));
        let mut last = (0i32, 0i32);
        for (i, (pos, bl)) in p.at.iter().enumerate() {
            let pos = (pos.0 as i32, pos.1 as i32);
            if i == 0 {
                s.push(Sym::Lit(4, pos.0 as u32));
                s.push(Sym::Lit(4, pos.1 as u32));
            } else {
                s.push(Sym::Lit(6, pack_signed(pos.0 - last.0)));
                s.push(Sym::Lit(6, pack_signed(pos.1 - last.1)));
            }
            last = pos;
            assert_eq!(bl.len(), 1 + necs);
            for b in bl {
                s.push(Sym::Lit(5, b.mode));
                if b.mode >= 4 && necs > 1 {
                    s.push(Sym::Lit(8, b.alpha));
                }
                if b.mode >= 3 {
                    s.push(Sym::Lit(9, b.clamp as u32));
                }
            }
        }
    }
    s
}
pub fn patches(bw: &mut Bw, ps: &[Patch], necs: usize) {
    emit(bw, 10, &patch_syms(ps, necs));
}
#[derive(Clone, Debug)]
pub struct Spl {
    pub start: (i32, i32),
    /// double deltas
    pub points: Vec<(i32, i32)>,
    /// X, Y, B, sigma
    pub dct: [Vec<i32>; 4],
}
pub fn splines(bw: &mut Bw, adj: i32, v: &[Spl]) {
    let mut s = vec![Sym::Lit(2, v.len() as u32 - 1)];
    let mut last = (0, 0);
    for (i, p) in v.iter().enumerate() {
        if i == 0 {
            s.push(Sym::Lit(1, p.start.0 as u32));
            s.push(Sym::Lit(1, p.start.1 as u32));
        } else {
            s.push(Sym::Lit(1, pack_signed(p.start.0 - last.0)));
            s.push(Sym::Lit(1, pack_signed(p.start.1 - last.1)));
        }
        last = p.start;
    }
    s.push(Sym::Lit(0, pack_signed(adj)));
    for p in v {
        s.push(Sym::Lit(3, p.points.len() as u32));
        for q in &p.points {
            s.push(Sym::Lit(4, pack_signed(q.0)));
            s.push(Sym::Lit(4, pack_signed(q.1)));
        }
        for d in &p.dct {
            for i in 0..32 {
                s.push(Sym::Lit(5, pack_signed(d.get(i).copied().unwrap_or(0))));
            }
        }
    }
    emit(bw, 6, &s);
}
pub fn noise(bw: &mut Bw, lut: &[u32; 8]) {
    for l in lut {
        bw.u(10, *l as u64);
    }
}
