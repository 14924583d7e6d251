//! VarDCT frames: from quantised coefficients to bits.
use super::{
    Bw, D::*, ceil_log2,
    ent::{CtxMap, Ent, Sym, Uint, write_ctx_map},
    frame::{Prefix, channels, layout, perm_syms},
    head::{Frame, Image},
    modular::{Chan, ModOpts, Sections, runs, sections_with},
    pack_signed,
};

/// Blocks covered by each transform: columns, rows.
pub const COVER: [(usize, usize); 27] = [
    (1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (2, 1), (1, 4), (4, 1), (2, 4), (4, 2), (1, 1), (1, 1), (1, 1), (1, 1),
    (1, 1), (1, 1), (8, 8), (4, 8), (8, 4), (16, 16), (8, 16), (16, 8), (32, 32), (16, 32), (32, 16),
];
/// Kind of coefficient order.
pub const SHAPE: [usize; 27] = [0, 1, 1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 1, 1, 1, 1, 1, 1, 7, 8, 8, 9, 10, 10, 11, 12, 12];
/// Blocks (long side, short side) of each order.
pub const ORDER_SIZE: [(usize, usize); 13] = [(1, 1), (1, 1), (2, 2), (4, 4), (2, 1), (4, 1), (4, 2), (8, 8), (8, 4), (16, 16), (16, 8), (32, 32), (32, 16)];
/// Quantisation table of each transform.
pub const TABLE: [usize; 27] = [0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 10, 10, 11, 12, 12, 13, 14, 14, 15, 16, 16];
pub const TABLE_SIZE: [(usize, usize); 17] =
    [(1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (1, 4), (2, 4), (1, 1), (1, 1), (8, 8), (4, 8), (16, 16), (8, 16), (32, 32), (16, 32)];
pub const DEFAULT_CTX: [u8; 39] =
    [0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14];

#[derive(Clone, Debug, PartialEq)]
pub struct Bands(pub [Vec<u16>; 3]);
/// A quantisation table; numbers are half floats.
#[derive(Clone, Debug, PartialEq)]
pub enum Qenc {
    Lib,
    Id([[u16; 3]; 3]),
    Dct2([[u16; 6]; 3]),
    Dct4([[u16; 2]; 3], Bands),
    Dct48([u16; 3], Bands),
    Afv([[u16; 9]; 3], Bands, Bands),
    Dct(Bands),
    Raw(u16, Vec<i32>),
}
#[derive(Clone, Debug)]
pub struct Bctx {
    /// thresholds of the low-frequency values of X, Y, B
    pub lf: [Vec<i32>; 3],
    pub qf: Vec<u32>,
    pub map: CtxMap,
}
impl Bctx {
    pub fn dflt() -> Bctx {
        Bctx { lf: [vec![], vec![], vec![]], qf: vec![], map: CtxMap::Simple(DEFAULT_CTX.to_vec(), 3) }
    }
    pub fn nlf(&self) -> usize {
        self.lf.iter().map(|t| t.len() + 1).product()
    }
    pub fn num(&self) -> usize {
        *self.map.map().iter().max().unwrap() as usize + 1
    }
}
#[derive(Clone, Debug)]
pub struct Ccp {
    pub factor: u32,
    pub base: [u16; 2],
    pub lf: [i32; 2],
}
#[derive(Clone, Debug)]
pub struct Blk {
    pub x: usize,
    pub y: usize,
    pub t: i32,
    pub q: i32,
}
/// Everything that is coded in a frame.
#[derive(Clone, Debug)]
pub struct Vd {
    pub gs: u32,
    pub qlf: u32,
    pub lfq: Option<[u16; 3]>,
    pub bctx: Option<Bctx>,
    pub ccp: Option<Ccp>,
    /// extra precision of each LF group
    pub prec: Vec<u32>,
    pub mats: Option<Vec<Qenc>>,
    pub nhist: usize,
    /// histogram of [pass][group]
    pub hist: Vec<Vec<usize>>,
    /// by pass: code of the mask (0..2, 3 explicit), permutations of (order, channel)
    pub orders: Vec<(u32, Vec<(usize, [Vec<usize>; 3])>)>,
    /// clusters of the coefficients' histograms
    pub clusters: usize,
    pub ans: bool,
    pub copies: Option<u32>,
    /// X, Y, B
    pub lf: [Chan; 3],
    pub tox: Chan,
    pub tob: Chan,
    pub sharp: Chan,
    /// by LF group, in coding order
    pub blocks: Vec<Vec<Blk>>,
    /// [LF group][block][channel][pass]: coefficients in the block's layout, before the pass's shift; empty where there are none
    pub coef: Vec<Vec<[Vec<Vec<i32>>; 3]>>,
    pub mopt: ModOpts,
    /// Damage: (kind, value)
    pub bad: Option<(u32, i32)>,
}
/// Index of the coefficient at each place of the natural order.
pub fn natural(order: usize) -> Vec<usize> {
    let (cx, cy) = ORDER_SIZE[order];
    let mut low = vec![];
    let mut rest = vec![];
    for y in 0..8 * cy {
        for x in 0..8 * cx {
            if x < cx && y < cy {
                low.push(y * 8 * cx + x);
            } else {
                let d = x + y * (cx / cy);
                rest.push((d, if d % 2 == 1 { 8 * cx - x } else { x }, y * 8 * cx + x));
            }
        }
    }
    rest.sort();
    low.extend(rest.into_iter().map(|r| r.2));
    low
}
fn put_bands(bw: &mut Bw, b: &Bands) {
    bw.u(4, b.0[0].len() as u64 - 1);
    for c in &b.0 {
        for v in c {
            bw.u(16, *v as u64);
        }
    }
}
impl Qenc {
    fn write(&self, bw: &mut Bw, raw: Option<&Bw>) {
        let h = |bw: &mut Bw, v: &[u16]| {
            for x in v {
                bw.u(16, *x as u64);
            }
        };
        match self {
            Qenc::Lib => bw.u(3, 0),
            Qenc::Id(w) => {
                bw.u(3, 1);
                w.iter().for_each(|r| h(bw, r));
            }
            Qenc::Dct2(w) => {
                bw.u(3, 2);
                w.iter().for_each(|r| h(bw, r));
            }
            Qenc::Dct4(m, b) => {
                bw.u(3, 3);
                m.iter().for_each(|r| h(bw, r));
                put_bands(bw, b);
            }
            Qenc::Dct48(m, b) => {
                bw.u(3, 4);
                h(bw, m);
                put_bands(bw, b);
            }
            Qenc::Afv(w, a, b) => {
                bw.u(3, 5);
                w.iter().for_each(|r| h(bw, r));
                put_bands(bw, a);
                put_bands(bw, b);
            }
            Qenc::Dct(b) => {
                bw.u(3, 6);
                put_bands(bw, b);
            }
            Qenc::Raw(den, _) => {
                bw.u(3, 7);
                bw.u(16, *den as u64);
                bw.append(raw.unwrap());
            }
        }
    }
}
fn shift(f: &Frame, c: usize) -> (usize, usize) {
    if !f.ycbcr {
        return (0, 0);
    }
    let (mh, mv) = f.max_shift();
    let u = f.jpeg_up[c] as usize;
    ((mh - [0, 1, 1, 0][u]) as usize, (mv - [0, 1, 0, 1][u]) as usize)
}
/// Shift of a colour channel of the frame.
pub fn chroma_shift(f: &Frame, c: usize) -> (usize, usize) {
    shift(f, c)
}
pub const FREQ: [usize; 64] = {
    let mut t = [0; 64];
    let mut i = 1;
    while i < 64 {
        t[i] = if i <= 15 {
            i - 1
        } else if i <= 31 {
            15 + (i - 16) / 2
        } else {
            23 + (i - 32) / 4
        };
        i += 1;
    }
    t
};
fn nonzero_bucket(n: usize) -> usize {
    match n {
        1 => 0,
        2 => 31,
        3..=4 => 62,
        5..=8 => 93,
        9..=12 => 123,
        13..=20 => 152,
        21..=32 => 180,
        _ => 206,
    }
}
impl Vd {
    pub fn ctx(&self) -> Bctx {
        self.bctx.clone().unwrap_or_else(Bctx::dflt)
    }
    /// Number of the low-frequency context of a block.
    pub fn lf_ctx(&self, f: &Frame, b: &Bctx, x: usize, y: usize) -> usize {
        if f.has_lf() {
            return 0;
        }
        let n = |c: usize| {
            let (h, v) = shift(f, c);
            b.lf[c].iter().filter(|t| self.lf[c].at(x >> h, y >> v) > **t).count()
        };
        (n(0) * (b.lf[2].len() + 1) + n(2)) * (b.lf[1].len() + 1) + n(1)
    }
    pub fn order(&self, pass: usize, ord: usize, c: usize) -> Vec<usize> {
        let n = natural(ord);
        match self.orders[pass].1.iter().find(|o| o.0 == ord) {
            None => n,
            Some(o) => o.1[c].iter().map(|i| n[*i]).collect(),
        }
    }
    fn hf_tokens(&self, img: &Image, f: &Frame, pass: usize, group: usize) -> Vec<Sym> {
        let b = self.ctx();
        let (nctx, nlf) = (b.num(), b.nlf());
        let base = self.hist[pass][group] * nctx * 495;
        let (gw, _) = f.groups(img);
        let (lw, _) = f.lf_groups(img);
        let (bx0, by0) = (group % gw * 32, group / gw * 32);
        let g = by0 / 256 * lw + bx0 / 256;
        let mut ids: Vec<usize> =
            (0..self.blocks[g].len()).filter(|i| self.blocks[g][*i].x / 32 * 32 == bx0 && self.blocks[g][*i].y / 32 * 32 == by0).collect();
        ids.sort_by_key(|i| (self.blocks[g][*i].y, self.blocks[g][*i].x));
        let mut seen = vec![[0usize; 32 * 32]; 3];
        let mut out = vec![];
        let mut orders: Vec<Option<Vec<usize>>> = vec![None; 39];
        for i in ids {
            let k = &self.blocks[g][i];
            let Some((cx, cy)) = COVER.get(k.t as usize).copied() else { continue };
            let n = cx * cy;
            let log = n.ilog2();
            let up = |v: usize| (v + (1 << log) - 1) >> log;
            for c in [1, 0, 2] {
                let (hs, vs) = shift(f, c);
                let (x, y) = (k.x - bx0, k.y - by0);
                if x % (1 << hs) != 0 || y % (1 << vs) != 0 {
                    continue;
                }
                let (x, y) = (x >> hs, y >> vs);
                let at = |x: usize, y: usize| seen[c][y * 32 + x];
                let guess = match (x, y) {
                    (0, 0) => 32,
                    (0, _) => at(0, y - 1),
                    (_, 0) => at(x - 1, 0),
                    _ => (at(x, y - 1) + at(x - 1, y)).div_ceil(2),
                };
                let bucket = match guess {
                    0..8 => guess,
                    8..64 => 4 + guess / 2,
                    _ => 36,
                };
                let q = b.qf.iter().filter(|t| k.q as u32 > **t).count();
                let lfi = self.lf_ctx(f, &b, k.x, k.y);
                let row = [1, 0, 2][c] * 13 + SHAPE[k.t as usize];
                let bc = b.map.map()[(row * (b.qf.len() + 1) + q) * nlf + lfi] as usize;
                let empty = vec![];
                let co = self.coef[g][i][c].get(pass).filter(|c| c.len() == n * 64).unwrap_or(&empty);
                let mut left = co.iter().filter(|v| **v != 0).count();
                let mut coded = left as u32;
                if let (Some((1, v)), 0, 1) = (self.bad, i, c) {
                    coded = v as u32;
                }
                out.push(Sym::Lit(base + bucket * nctx + bc, coded));
                for dy in 0..cy {
                    for dx in 0..cx {
                        if (y + dy) < 32 && x + dx < 32 {
                            seen[c][(y + dy) * 32 + x + dx] = up(left);
                        }
                    }
                }
                let mut prev = (left <= n * 64 / 16) as usize;
                let ord = orders[SHAPE[k.t as usize] * 3 + c].get_or_insert_with(|| self.order(pass, SHAPE[k.t as usize], c));
                for p in n..n * 64 {
                    if left == 0 {
                        break;
                    }
                    let z = (nonzero_bucket(up(left)) + FREQ[p >> log]) * 2 + prev;
                    let v = co[ord[p]];
                    out.push(Sym::Lit(base + nctx * 37 + 458 * bc + z, pack_signed(v)));
                    prev = (v != 0) as usize;
                    left -= prev;
                }
            }
        }
        match self.copies {
            Some(m) => runs(&out, m, 0),
            None => out,
        }
    }
    fn ent(&self, num: usize) -> Ent {
        let mut e = Ent::auto(num);
        if self.ans {
            e = e.ans();
        }
        let mut n = num;
        if let Some(m) = self.copies {
            e = e.with_lz(224, m);
            n += 1;
        }
        let k = self.clusters;
        if k > 1 {
            let mut map: Vec<u8> = (0..n).map(|i| ((i * 2654435761usize >> 7) % k) as u8).collect();
            for (i, m) in map.iter_mut().enumerate().take(k) {
                *m = i as u8;
            }
            e = e.with_map(CtxMap::Coded { map, mtf: false, ent: Box::new(Ent::auto(1)), copies: false });
            // every cluster reads its numbers in its own way
            const U: [Uint; 6] = [
                Uint { split: 4, msb: 2, lsb: 0 },
                Uint { split: 3, msb: 0, lsb: 1 },
                Uint { split: 5, msb: 1, lsb: 2 },
                Uint { split: 4, msb: 0, lsb: 0 },
                Uint { split: 2, msb: 2, lsb: 0 },
                Uint { split: 5, msb: 3, lsb: 0 },
            ];
            e.uint = (0..k).map(|i| U[i % 6]).collect();
        }
        e
    }
    /// The sections of the frame and the decoded extra channels.
    pub fn write(&self, img: &Image, f: &Frame, prefix: Prefix, target: &mut dyn FnMut(u32, usize, usize, usize) -> i32) -> (Vec<Vec<u8>>, Vec<Chan>) {
        let lay = layout(img, f);
        let (bw, bh) = f.size_blocks(img);
        let (lw, lh) = f.lf_groups(img);
        let (gw, gh) = f.groups(img);
        let (nlf, ngr, np) = (lw * lh, gw * gh, f.passes.num as usize);
        let cut = |c: &Chan, x0: usize, y0: usize, w: usize, h: usize, s: i32| {
            let mut o = Chan::sub(w, h, s, s);
            for y in 0..h {
                for x in 0..w {
                    o.data[y * w + x] = c.at(x0 + x, y0 + y);
                }
            }
            o
        };
        let mut extra: Vec<(u32, Vec<Chan>)> = vec![];
        for g in 0..nlf {
            let (x0, y0) = (g % lw * 256, g / lw * 256);
            let (w, h) = (256.min(bw - x0), 256.min(bh - y0));
            if !f.has_lf() {
                let ch = [1, 0, 2]
                    .into_iter()
                    .map(|c| {
                        let (hs, vs) = shift(f, c);
                        cut(&self.lf[c], x0 >> hs, y0 >> vs, w >> hs, h >> vs, 0)
                    })
                    .collect();
                extra.push((1 + g as u32, ch));
            }
            let mut b = Chan::new(self.blocks[g].len(), 2);
            let n = b.w;
            for (i, k) in self.blocks[g].iter().enumerate() {
                b.data[i] = k.t;
                b.data[n + i] = k.q - 1;
            }
            let (tw, th) = (w.div_ceil(8), h.div_ceil(8));
            extra.push((
                (1 + 2 * nlf + g) as u32,
                vec![cut(&self.tox, x0 / 8, y0 / 8, tw, th, 3), cut(&self.tob, x0 / 8, y0 / 8, tw, th, 3), b, cut(&self.sharp, x0, y0, w, h, 0)],
            ));
        }
        let first_raw = extra.len();
        if let Some(m) = &self.mats {
            for (i, q) in m.iter().enumerate() {
                if let Qenc::Raw(_, v) = q {
                    let (w, h) = (8 * TABLE_SIZE[i].0, 8 * TABLE_SIZE[i].1);
                    let ch = (0..3).map(|c| Chan { data: v[c * w * h..(c + 1) * w * h].to_vec(), ..Chan::new(w, h) }).collect();
                    extra.push(((1 + 3 * nlf + i) as u32, ch));
                }
            }
        }
        let Sections { global, lf, hf, extra, chans } = sections_with(&lay, channels(img, f), &self.mopt, &extra, target);
        let mut g = Bw::new();
        if let Some(p) = prefix {
            p(&mut g);
        }
        g.b(self.lfq.is_none());
        if let Some(v) = self.lfq {
            v.iter().for_each(|x| g.u(16, *x as u64));
        }
        g.u32([B(11, 1), B(11, 2049), B(12, 4097), B(16, 8193)], self.gs);
        g.u32([V(16), B(5, 1), B(8, 1), B(16, 1)], self.qlf);
        g.b(self.bctx.is_none());
        if let Some(b) = &self.bctx {
            for t in &b.lf {
                g.u(4, t.len() as u64);
                for v in t {
                    g.u32([B(4, 0), B(8, 16), B(16, 272), B(32, 65808)], pack_signed(*v));
                }
            }
            g.u(4, b.qf.len() as u64);
            for v in &b.qf {
                g.u32([B(2, 0), B(3, 4), B(5, 12), B(8, 44)], v - 1);
            }
            write_ctx_map(&mut g, &b.map);
        }
        g.b(self.ccp.is_none());
        if let Some(c) = &self.ccp {
            g.u32([V(84), V(256), B(8, 2), B(16, 258)], c.factor);
            g.u(16, c.base[0] as u64);
            g.u(16, c.base[1] as u64);
            g.u(8, (c.lf[0] + 128) as u64);
            g.u(8, (c.lf[1] + 128) as u64);
        }
        g.append(&global);
        let mut lfs = vec![];
        let mut e = extra.iter();
        for (i, l) in lf.iter().enumerate() {
            let mut b = Bw::new();
            if !f.has_lf() {
                b.u(2, self.prec[i] as u64);
                b.append(e.next().unwrap());
            }
            b.append(l);
            let (x0, y0) = (i % lw * 256, i / lw * 256);
            let n = 256.min(bw - x0) * 256.min(bh - y0);
            b.u(ceil_log2(n as u64), self.blocks[i].len() as u64 - 1);
            b.append(e.next().unwrap());
            lfs.push(b);
        }
        let mut h = Bw::new();
        h.b(self.mats.is_none());
        if let Some(m) = &self.mats {
            let mut r = extra[first_raw..].iter();
            for q in m {
                q.write(&mut h, if matches!(q, Qenc::Raw(..)) { r.next() } else { None });
            }
        }
        h.u(ceil_log2(ngr as u64), self.nhist as u64 - 1);
        let nctx = self.nhist * self.ctx().num() * 495;
        let mut hfs: Vec<Vec<Bw>> = vec![];
        for p in 0..np {
            let (sel, perms) = &self.orders[p];
            let mask: u32 = perms.iter().map(|o| 1 << o.0).sum();
            h.u(2, *sel as u64);
            match sel {
                0 => assert_eq!(mask, 0x5f),
                1 => assert_eq!(mask, 0x13),
                2 => assert_eq!(mask, 0),
                _ => h.u(13, mask as u64),
            }
            if mask != 0 {
                let mut syms = vec![];
                for (o, pc) in perms {
                    for q in pc {
                        syms.extend(perm_syms(q, ORDER_SIZE[*o].0 * ORDER_SIZE[*o].1));
                    }
                }
                let mut e = Ent::auto(8);
                if self.ans {
                    e = e.ans();
                }
                e.prepare(&[&syms]);
                e.write_header(&mut h);
                e.write_tokens(&mut h, &syms);
            }
            let toks: Vec<Vec<Sym>> = (0..ngr).map(|g| self.hf_tokens(img, f, p, g)).collect();
            let mut e = self.ent(nctx);
            e.prepare(&toks.iter().map(|t| &t[..]).collect::<Vec<_>>());
            e.write_header(&mut h);
            hfs.push(
                toks.iter()
                    .enumerate()
                    .map(|(g, t)| {
                        let mut b = Bw::new();
                        let mut hi = self.hist[p][g];
                        if let (Some((2, v)), 0) = (self.bad, g) {
                            hi = v as usize;
                        }
                        b.u(ceil_log2(self.nhist as u64), hi as u64);
                        e.write_tokens(&mut b, t);
                        b.append(&hf[p][g]);
                        b
                    })
                    .collect(),
            );
        }
        let mut secs = vec![];
        if f.num_sections(img) == 1 {
            g.append(&lfs[0]);
            g.append(&h);
            g.append(&hfs[0][0]);
            secs.push(g.bytes);
        } else {
            secs.push(g.bytes);
            secs.extend(lfs.into_iter().map(|b| b.bytes));
            secs.push(h.bytes);
            secs.extend(hfs.into_iter().flatten().map(|b| b.bytes));
        }
        (secs, chans)
    }
}
