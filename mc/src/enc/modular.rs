//! Modular sub-bitstreams: a reference interpreter that, given a tree, transforms and target values, produces both the
//! symbols and the sample values they stand for.
use super::{Bw, D::*, ent::Ent, ent::Sym, pack_signed};

#[derive(Clone, Debug, PartialEq)]
pub struct Chan {
    pub w: usize,
    pub h: usize,
    pub hs: i32,
    pub vs: i32,
    pub data: Vec<i32>,
}
impl Chan {
    pub fn new(w: usize, h: usize) -> Chan {
        Chan::sub(w, h, 0, 0)
    }
    pub fn sub(w: usize, h: usize, hs: i32, vs: i32) -> Chan {
        Chan { w, h, hs, vs, data: vec![0; w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> i32 {
        self.data[y * self.w + x]
    }
    fn rect(&self, x0: usize, y0: usize, w: usize, h: usize) -> Chan {
        let mut c = Chan::sub(w, h, self.hs, self.vs);
        for y in 0..h {
            for x in 0..w {
                c.data[y * w + x] = self.at(x0 + x, y0 + y);
            }
        }
        c
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    /// property, threshold (greater: first child)
    Split(u32, i32),
    /// predictor, offset, multiplier as (mantissa-1 bits, log)
    Leaf { pred: u32, offset: i32, mul_log: u32, mul_bits: u32 },
}
pub fn leaf(pred: u32) -> Node {
    Node::Leaf { pred, offset: 0, mul_log: 0, mul_bits: 0 }
}
/// Breadth-first list of nodes, as coded.
#[derive(Clone, Debug, PartialEq)]
pub struct Tree(pub Vec<Node>);
impl Tree {
    pub fn single(pred: u32) -> Tree {
        Tree(vec![leaf(pred)])
    }
    pub fn leaves(&self) -> usize {
        self.0.iter().filter(|n| matches!(n, Node::Leaf { .. })).count()
    }
    /// For each node: (first child) or (leaf number)
    fn index(&self) -> Vec<usize> {
        let mut next = 1;
        let mut leaf = 0;
        let v = self
            .0
            .iter()
            .map(|n| match n {
                Node::Split(..) => {
                    next += 2;
                    next - 2
                }
                _ => {
                    leaf += 1;
                    leaf - 1
                }
            })
            .collect();
        assert_eq!(next, self.0.len(), "the tree is incomplete");
        v
    }
    /// No split is on a range that the splits above it have made empty.
    pub fn valid(&self) -> bool {
        let idx = self.index();
        let np = self.max_prop() as usize + 1;
        let mut todo = vec![(0, vec![(i32::MIN as i64, i32::MAX as i64); np])];
        while let Some((i, r)) = todo.pop() {
            if let Node::Split(p, v) = self.0[i] {
                let (lo, hi) = r[p as usize];
                let v = v as i64;
                if v < lo || v >= hi {
                    return false;
                }
                let mut a = r.clone();
                a[p as usize].0 = v + 1;
                todo.push((idx[i], a));
                let mut b = r;
                b[p as usize].1 = v;
                todo.push((idx[i] + 1, b));
            }
        }
        true
    }
    pub fn max_prop(&self) -> u32 {
        self.0.iter().map(|n| if let Node::Split(p, _) = n { *p } else { 0 }).max().unwrap()
    }
    pub fn write(&self, bw: &mut Bw, mut ent: Ent) {
        self.index();
        let mut s = vec![];
        for n in &self.0 {
            match n {
                Node::Split(p, v) => {
                    s.push(Sym::Lit(1, p + 1));
                    s.push(Sym::Lit(0, pack_signed(*v)));
                }
                Node::Leaf { pred, offset, mul_log, mul_bits } => {
                    s.push(Sym::Lit(1, 0));
                    s.push(Sym::Lit(2, *pred));
                    s.push(Sym::Lit(3, pack_signed(*offset)));
                    s.push(Sym::Lit(4, *mul_log));
                    s.push(Sym::Lit(5, *mul_bits));
                }
            }
        }
        ent.prepare(&[&s]);
        ent.write_header(bw);
        ent.write_tokens(bw, &s);
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Wp {
    pub p: [i64; 7],
    pub w: [u32; 4],
}
impl Wp {
    pub fn dflt() -> Wp {
        Wp { p: [16, 10, 7, 7, 7, 0, 0], w: [13, 12, 12, 12] }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sq {
    pub horizontal: bool,
    pub in_place: bool,
    pub begin: usize,
    pub num: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tr {
    /// begin, type
    Rct(usize, u32),
    Palette { begin: usize, num: usize, colors: usize, deltas: usize, pred: u32 },
    /// empty: default parameters
    Squeeze(Vec<Sq>),
}
impl Tr {
    fn write(&self, bw: &mut Bw) {
        let beg = [B(3, 0), B(6, 8), B(10, 72), B(13, 1096)];
        match self {
            Tr::Rct(b, t) => {
                bw.u(2, 0);
                bw.u32(beg, *b as u32);
                bw.u32([V(6), B(2, 0), B(4, 2), B(6, 10)], *t);
            }
            Tr::Palette { begin, num, colors, deltas, pred } => {
                bw.u(2, 1);
                bw.u32(beg, *begin as u32);
                bw.u32([V(1), V(3), V(4), B(13, 1)], *num as u32);
                bw.u32([B(8, 0), B(10, 256), B(12, 1280), B(16, 5376)], *colors as u32);
                bw.u32([V(0), B(8, 1), B(10, 257), B(16, 1281)], *deltas as u32);
                bw.u(4, *pred as u64);
            }
            Tr::Squeeze(v) => {
                bw.u(2, 2);
                bw.u32([V(0), B(4, 1), B(6, 9), B(8, 41)], v.len() as u32);
                for s in v {
                    bw.b(s.horizontal);
                    bw.b(s.in_place);
                    bw.u32(beg, s.begin as u32);
                    bw.u32([V(1), V(2), V(3), B(4, 4)], s.num as u32);
                }
            }
        }
    }
}
pub fn write_group_header(bw: &mut Bw, use_global: bool, wp: &Wp, trs: &[Tr]) {
    bw.b(use_global);
    if !bw.dflt(*wp == Wp::dflt()) {
        for p in wp.p {
            bw.u(5, p as u64);
        }
        for w in wp.w {
            bw.u(4, w as u64);
        }
    }
    bw.u32([V(0), V(1), B(4, 2), B(8, 18)], trs.len() as u32);
    for t in trs {
        t.write(bw);
    }
}

/// A list of channels with the number of leading meta channels.
#[derive(Clone, Debug, PartialEq)]
pub struct Chans {
    pub c: Vec<Chan>,
    pub meta: usize,
}
/// What undoing a transform needs to remember.
#[derive(Clone, Debug)]
pub enum Undo {
    Rct(usize, u32),
    /// transform, first channel, number of meta channels before
    Palette(Tr, usize, usize),
    Squeeze(Vec<Sq>),
}
pub fn default_squeeze(c: &Chans) -> Vec<Sq> {
    let m = c.meta;
    let n = c.c.len() - m;
    let (mut w, mut h) = (c.c[m].w, c.c[m].h);
    let mut v = vec![];
    if n > 2 && (c.c[m + 1].w, c.c[m + 1].h) == (w, h) {
        for horizontal in [true, false] {
            v.push(Sq { horizontal, in_place: false, begin: m + 1, num: 2 });
        }
    }
    let mut push = |horizontal: bool, x: &mut usize| {
        v.push(Sq { horizontal, in_place: true, begin: m, num: n });
        *x = x.div_ceil(2);
    };
    if w <= h && h > 8 {
        push(false, &mut h);
    }
    while w > 8 || h > 8 {
        if w > 8 {
            push(true, &mut w);
        }
        if h > 8 {
            push(false, &mut h);
        }
    }
    v
}
impl Chans {
    /// Changes the list to what is coded when `trs` are used. None: the transforms do not apply to it.
    pub fn forward(&mut self, trs: &[Tr]) -> Option<Vec<Undo>> {
        let mut undo = vec![];
        for t in trs {
            match t {
                Tr::Rct(b, ty) => {
                    let c = self.c.get(*b..*b + 3)?;
                    if c.iter().any(|x| (x.w, x.h, x.hs, x.vs) != (c[0].w, c[0].h, c[0].hs, c[0].vs)) {
                        return None;
                    }
                    if *b < self.meta {
                        return None;
                    }
                    undo.push(Undo::Rct(*b, *ty));
                }
                Tr::Palette { begin, num, colors, deltas, .. } => {
                    let c = self.c.get(*begin..*begin + *num)?;
                    if c.iter().any(|x| (x.w, x.h, x.hs, x.vs) != (c[0].w, c[0].h, c[0].hs, c[0].vs)) {
                        return None;
                    }
                    let before = self.meta;
                    if *begin < self.meta {
                        if begin + num > self.meta {
                            return None;
                        }
                        self.meta = self.meta + 2 - num;
                    } else {
                        self.meta += 1;
                    }
                    self.c.drain(begin + 1..begin + num);
                    self.c.insert(0, Chan::sub(colors + deltas, *num, -1, -1));
                    undo.push(Undo::Palette(t.clone(), *begin, before));
                }
                Tr::Squeeze(v) => {
                    let v = if v.is_empty() { default_squeeze(self) } else { v.clone() };
                    for s in &v {
                        if s.begin + s.num > self.c.len() {
                            return None;
                        }
                        if s.begin < self.meta {
                            if s.begin + s.num > self.meta || !s.in_place {
                                return None;
                            }
                            self.meta += s.num;
                        }
                        let off = if s.in_place { s.begin + s.num } else { self.c.len() };
                        for i in 0..s.num {
                            let c = &mut self.c[s.begin + i];
                            if c.hs > 30 || c.vs > 30 {
                                return None;
                            }
                            let mut r = Chan::new(0, 0);
                            if s.horizontal {
                                (r.w, r.h) = (c.w / 2, c.h);
                                c.w = c.w.div_ceil(2);
                                if c.hs >= 0 {
                                    c.hs += 1;
                                }
                            } else {
                                (r.w, r.h) = (c.w, c.h / 2);
                                c.h = c.h.div_ceil(2);
                                if c.vs >= 0 {
                                    c.vs += 1;
                                }
                            }
                            (r.hs, r.vs) = (c.hs, c.vs);
                            r.data = vec![0; r.w * r.h];
                            c.data = vec![0; c.w * c.h];
                            self.c.insert(off + i, r);
                        }
                    }
                    undo.push(Undo::Squeeze(v));
                }
            }
        }
        Some(undo)
    }
    fn inverse(&mut self, undo: &[Undo], bits: u32, wp: &Wp) {
        for u in undo.iter().rev() {
            match u {
                Undo::Rct(b, ty) => rct(&mut self.c[*b..*b + 3], *ty),
                Undo::Palette(t, begin, before) => {
                    self.unpalette(t, *begin, bits, wp);
                    self.meta = *before;
                }
                Undo::Squeeze(v) => {
                    for s in v.iter().rev() {
                        let off = if s.in_place { s.begin + s.num } else { self.c.len() - s.num };
                        for i in 0..s.num {
                            let r = &self.c[off + i];
                            let c = unsqueeze(&self.c[s.begin + i], r, s.horizontal);
                            self.c[s.begin + i] = c;
                        }
                        self.c.drain(off..off + s.num);
                    }
                }
            }
        }
    }
    fn unpalette(&mut self, t: &Tr, begin: usize, bits: u32, wp: &Wp) {
        let Tr::Palette { num, deltas, pred, .. } = t else { unreachable!() };
        let pal = self.c.remove(0);
        let idx = self.c.remove(begin);
        let bits = bits.min(24);
        for c in 0..*num {
            let mut out = Chan::sub(idx.w, idx.h, idx.hs, idx.vs);
            let mut st = WpState::new(wp, idx.w);
            for y in 0..idx.h {
                for x in 0..idx.w {
                    let i = idx.at(x, y) as i64;
                    let mut v = palette_value(&pal, i, c, bits);
                    let n = Nb::at(&out, x, y);
                    let wpred = if *pred == 6 { st.predict(&n, x, y).0 } else { 0 };
                    if i < *deltas as i64 {
                        v = v.wrapping_add(n.predict(*pred, wpred) as i32);
                    }
                    out.data[y * idx.w + x] = v;
                    if *pred == 6 {
                        st.update(v as i64, x, y);
                    }
                }
            }
            self.c.insert(begin + c, out);
        }
    }
}
pub const DELTAS: [[i32; 3]; 72] = [
    [0, 0, 0], [4, 4, 4], [11, 0, 0], [0, 0, -13], [0, -12, 0], [-10, -10, -10],
    [-18, -18, -18], [-27, -27, -27], [-18, -18, 0], [0, 0, -32], [-32, 0, 0], [-37, -37, -37],
    [0, -32, -32], [24, 24, 45], [50, 50, 50], [-45, -24, -24], [-24, -45, -45], [0, -24, -24],
    [-34, -34, 0], [-24, 0, -24], [-45, -45, -24], [64, 64, 64], [-32, 0, -32], [0, -32, 0],
    [-32, 0, 32], [-24, -45, -24], [45, 24, 45], [24, -24, -45], [-45, -24, 24], [80, 80, 80],
    [64, 0, 0], [0, 0, -64], [0, -64, -64], [-24, -24, 45], [96, 96, 96], [64, 64, 0],
    [45, -24, -24], [34, -34, 0], [112, 112, 112], [24, -45, -45], [45, 45, -24], [0, -32, 32],
    [24, -24, 45], [0, 96, 96], [45, -24, 24], [24, -45, -24], [-24, -45, 24], [0, -64, 0],
    [96, 0, 0], [128, 128, 128], [64, 0, 64], [144, 144, 144], [96, 96, 0], [-36, -36, 36],
    [45, -24, -45], [45, -45, -24], [0, 0, -96], [0, 128, 128], [0, 96, 0], [45, 24, -45],
    [-128, 0, 0], [24, -45, 24], [-45, 24, -45], [64, 0, -64], [64, -64, -64], [96, 0, 96],
    [45, -45, 24], [24, 45, -45], [64, 64, -64], [128, 128, 0], [0, 0, -128], [-24, 45, -45],
];
fn palette_value(pal: &Chan, i: i64, c: usize, bits: u32) -> i32 {
    let size = pal.w as i64;
    let scale = |v: i64| ((v * ((1i64 << bits) - 1)) / 4) as i32;
    if i < 0 {
        if c >= 3 {
            return 0;
        }
        let k = (-(i + 1)) % 143;
        let mut v = DELTAS[((k + 1) >> 1) as usize][c] * if k & 1 == 0 { -1 } else { 1 };
        if bits > 8 {
            v <<= bits - 8;
        }
        v
    } else if i < size {
        pal.at(i as usize, c)
    } else if c >= 3 {
        0
    } else if i < size + 64 {
        let k = (i - size) >> (2 * c);
        scale(k % 4) + (1 << bits.saturating_sub(3))
    } else {
        let k = (i - size - 64) / [1, 5, 25][c];
        scale(k % 5)
    }
}
fn rct(c: &mut [Chan], ty: u32) {
    let (op, perm) = (ty % 7, ty / 7);
    // perm: position of each decoded component in the output
    let order = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [1, 0, 2], [2, 1, 0]][perm as usize];
    for i in 0..c[0].data.len() {
        let (a, mut b, mut d) = (c[0].data[i], c[1].data[i], c[2].data[i]);
        let mut a2 = a;
        match op {
            6 => {
                let t = a.wrapping_sub(d >> 1);
                let g = t.wrapping_add(d);
                let bl = t.wrapping_sub(b >> 1);
                let r = bl.wrapping_add(b);
                (a2, b, d) = (r, g, bl);
            }
            _ => {
                if op & 1 == 1 {
                    d = d.wrapping_add(a);
                }
                match op >> 1 {
                    1 => b = b.wrapping_add(a),
                    2 => b = b.wrapping_add(a.wrapping_add(d) >> 1),
                    _ => {}
                }
            }
        }
        for (k, v) in [a2, b, d].into_iter().enumerate() {
            c[order[k]].data[i] = v;
        }
    }
}
fn tendency(b: i64, a: i64, n: i64) -> i64 {
    let mut d = 0;
    if b >= a && a >= n {
        d = (4 * b - 3 * n - a + 6) / 12;
        if d - (d & 1) > 2 * (b - a) {
            d = 2 * (b - a) + 1;
        }
        if d + (d & 1) > 2 * (a - n) {
            d = 2 * (a - n);
        }
    } else if b <= a && a <= n {
        d = (4 * b - 3 * n - a - 6) / 12;
        if d + (d & 1) < 2 * (b - a) {
            d = 2 * (b - a) - 1;
        }
        if d - (d & 1) < 2 * (a - n) {
            d = 2 * (a - n);
        }
    }
    d
}
fn unsqueeze(avg: &Chan, res: &Chan, horizontal: bool) -> Chan {
    let (hs, vs) = if horizontal { (avg.hs - (avg.hs > 0) as i32, avg.vs) } else { (avg.hs, avg.vs - (avg.vs > 0) as i32) };
    let (w, h) = if horizontal { (avg.w + res.w, avg.h) } else { (avg.w, avg.h + res.h) };
    let mut out = Chan::sub(w, h, hs, vs);
    let (lines, pairs, len) = if horizontal { (h, res.w, avg.w) } else { (w, res.h, avg.h) };
    for l in 0..lines {
        let get = |c: &Chan, i: usize| if horizontal { c.at(i, l) } else { c.at(l, i) } as i64;
        let pos = |i: usize| if horizontal { l * w + i } else { i * w + l };
        for i in 0..pairs {
            let a = get(avg, i);
            let n = if i + 1 < len { get(avg, i + 1) } else { a };
            let b = if i > 0 { out.data[pos(2 * i - 1)] as i64 } else { a };
            let diff = get(res, i) + tendency(b, a, n);
            let first = a + diff / 2;
            out.data[pos(2 * i)] = first as i32;
            out.data[pos(2 * i + 1)] = (first - diff) as i32;
        }
        if pairs < len {
            out.data[pos(2 * pairs)] = get(avg, pairs) as i32;
        }
    }
    out
}

/// Neighbourhood of a sample.
pub struct Nb {
    w: i64,
    n: i64,
    nw: i64,
    ne: i64,
    nn: i64,
    ww: i64,
    nee: i64,
}
impl Nb {
    fn at(c: &Chan, x: usize, y: usize) -> Nb {
        let g = |x: usize, y: usize| c.at(x, y) as i64;
        let w = if x > 0 { g(x - 1, y) } else if y > 0 { g(x, y - 1) } else { 0 };
        let n = if y > 0 { g(x, y - 1) } else { w };
        let nw = if x > 0 && y > 0 { g(x - 1, y - 1) } else { w };
        let ne = if y > 0 && x + 1 < c.w { g(x + 1, y - 1) } else { n };
        let nn = if y > 1 { g(x, y - 2) } else { n };
        let ww = if x > 1 { g(x - 2, y) } else { w };
        let nee = if y > 0 && x + 2 < c.w { g(x + 2, y - 1) } else { ne };
        Nb { w, n, nw, ne, nn, ww, nee }
    }
    fn gradient(&self) -> i64 {
        grad(self.w, self.n, self.nw)
    }
    fn predict(&self, p: u32, wp: i64) -> i64 {
        match p {
            0 => 0,
            1 => self.w,
            2 => self.n,
            3 => (self.w + self.n) / 2,
            4 => {
                let p = self.w + self.n - self.nw;
                if (p - self.w).abs() < (p - self.n).abs() { self.w } else { self.n }
            }
            5 => self.gradient(),
            6 => wp,
            7 => self.ne,
            8 => self.nw,
            9 => self.ww,
            10 => (self.w + self.nw) / 2,
            11 => (self.n + self.nw) / 2,
            12 => (self.n + self.ne) / 2,
            13 => (6 * self.n - 2 * self.nn + 7 * self.w + self.ww + self.nee + 3 * self.ne + 8) / 16,
            _ => unreachable!(),
        }
    }
}
fn grad(w: i64, n: i64, nw: i64) -> i64 {
    let (lo, hi) = (w.min(n), w.max(n));
    if nw > hi {
        lo
    } else if nw < lo {
        hi
    } else {
        w + n - nw
    }
}
struct WpState {
    h: Wp,
    width: usize,
    /// rows by parity
    err: [Vec<i64>; 2],
    perr: [[Vec<u64>; 2]; 4],
    pred: [i64; 4],
    last: i64,
}
impl WpState {
    fn new(h: &Wp, width: usize) -> WpState {
        let z = vec![0u64; width + 2];
        WpState {
            h: h.clone(),
            width,
            err: [vec![0; width + 2], vec![0; width + 2]],
            perr: std::array::from_fn(|_| [z.clone(), z.clone()]),
            pred: [0; 4],
            last: 0,
        }
    }
    /// (prediction, property 15)
    fn predict(&mut self, n: &Nb, x: usize, y: usize) -> (i64, i64) {
        let (cur, prev) = if y & 1 == 1 { (0, 1) } else { (1, 0) };
        let xe = if x + 1 < self.width { x + 1 } else { x };
        let xw = x.saturating_sub(1);
        let mut wt = [0u64; 4];
        for i in 0..4 {
            let p = &self.perr[i][prev];
            // 32-bit arithmetic
            let s = (p[x] + p[xe] + p[xw]) as u32 as u64;
            let sh = ((s + 1).ilog2() as i64 - 5).max(0) as u32;
            wt[i] = 4 + ((self.h.w[i] as u64 * ((1 << 24) / ((s >> sh) + 1))) >> sh);
        }
        let (nn, nw, ne, no, w) = (n.nn * 8, n.nw * 8, n.ne * 8, n.n * 8, n.w * 8);
        let te_w = if x == 0 { 0 } else { self.err[cur][x - 1] };
        let (te_n, te_nw, te_ne) = (self.err[prev][x], self.err[prev][xw], self.err[prev][xe]);
        let sum = te_n + te_w;
        let mut prop = te_w;
        for t in [te_n, te_nw, te_ne] {
            if t.abs() > prop.abs() {
                prop = t;
            }
        }
        let p = &self.h.p;
        self.pred = [
            w + ne - no,
            no - (((sum + te_ne) * p[0]) >> 5),
            w - (((sum + te_nw) * p[1]) >> 5),
            no - ((te_nw * p[2] + te_n * p[3] + te_ne * p[4] + (nn - no) * p[5] + (nw - w) * p[6]) >> 5),
        ];
        let lw = wt.iter().sum::<u64>().ilog2();
        for v in wt.iter_mut() {
            *v >>= lw - 4;
        }
        let s: u64 = wt.iter().sum();
        let mut acc = (s >> 1) as i64 - 1;
        for i in 0..4 {
            acc += self.pred[i] * wt[i] as i64;
        }
        let mut v = (acc * ((1i64 << 24) / s as i64)) >> 24;
        if ((te_n ^ te_w) | (te_n ^ te_nw)) <= 0 {
            v = v.clamp(w.min(ne.min(no)), w.max(ne.max(no)));
        }
        self.last = v;
        ((v + 3) >> 3, prop)
    }
    fn update(&mut self, val: i64, x: usize, y: usize) {
        let (cur, prev) = if y & 1 == 1 { (0, 1) } else { (1, 0) };
        let v = val * 8;
        self.err[cur][x] = self.last - v;
        for i in 0..4 {
            let e = (((self.pred[i] - v).abs() + 3) >> 3) as u64;
            self.perr[i][cur][x] = e;
            self.perr[i][prev][x + 1] += e;
        }
    }
}

/// Codes the channels of one sub-bitstream: `target(channel, x, y)` is the wanted value; what is actually coded (which
/// differs where a leaf's multiplier does not divide the residual) is stored into the channels.
pub fn code(chans: &mut [Chan], tree: &Tree, wp: &Wp, stream: u32, target: &mut dyn FnMut(usize, usize, usize) -> i32) -> Vec<Sym> {
    let idx = tree.index();
    let mut out = vec![];
    for ci in 0..chans.len() {
        let (done, rest) = chans.split_at_mut(ci);
        let c = &mut rest[0];
        let refs: Vec<&Chan> =
            done.iter().rev().filter(|r| (r.w, r.h, r.hs, r.vs) == (c.w, c.h, c.hs, c.vs)).collect();
        let mut st = WpState::new(wp, c.w);
        for y in 0..c.h {
            let mut prev9 = 0i64;
            for x in 0..c.w {
                let n = Nb::at(c, x, y);
                let (wpred, p15) = st.predict(&n, x, y);
                let p9 = n.w + n.n - n.nw;
                let prop = |p: u32| -> i64 {
                    match p {
                        0 => ci as i64,
                        1 => stream as i64,
                        2 => y as i64,
                        3 => x as i64,
                        4 => n.n.abs(),
                        5 => n.w.abs(),
                        6 => n.n,
                        7 => n.w,
                        8 => n.w - prev9,
                        9 => p9,
                        10 => n.w - n.nw,
                        11 => n.nw - n.n,
                        12 => n.n - n.ne,
                        13 => n.n - n.nn,
                        14 => n.w - n.ww,
                        15 => p15,
                        _ => {
                            let k = (p as usize - 16) / 4;
                            let Some(r) = refs.get(k) else { return 0 };
                            let v = r.at(x, y) as i64;
                            let w = if x > 0 { r.at(x - 1, y) as i64 } else { 0 };
                            let nn = if y > 0 { r.at(x, y - 1) as i64 } else { w };
                            let nw = if x > 0 && y > 0 { r.at(x - 1, y - 1) as i64 } else { w };
                            let d = v - grad(w, nn, nw);
                            [v.abs(), v, d.abs(), d][(p as usize - 16) % 4]
                        }
                    }
                };
                let mut at = 0;
                let (pred, offset, mul, ctx) = loop {
                    match &tree.0[at] {
                        Node::Split(p, v) => at = if prop(*p) > *v as i64 { idx[at] } else { idx[at] + 1 },
                        Node::Leaf { pred, offset, mul_log, mul_bits } => {
                            break (*pred, *offset as i64, ((*mul_bits as i64) + 1) << mul_log, idx[at]);
                        }
                    }
                };
                prev9 = p9;
                let guess = n.predict(pred, wpred) + offset;
                let t = target(ci, x, y) as i64;
                let r = (t - guess).div_euclid(mul);
                let r = r.clamp(i32::MIN as i64, i32::MAX as i64);
                let v = guess + r * mul;
                out.push(Sym::Lit(ctx, pack_signed(r as i32)));
                c.data[y * c.w + x] = v as i32;
                st.update(v, x, y);
            }
        }
    }
    out
}
/// Replaces runs of equal values by copies of the previous symbol.
pub fn runs(v: &[Sym], min: u32, dist_sym: u32) -> Vec<Sym> {
    let val = |s: &Sym| if let Sym::Lit(_, v) = s { *v } else { unreachable!() };
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut n = 0;
        if i > 0 {
            while i + n < v.len() && val(&v[i + n]) == val(&v[i - 1]) {
                n += 1;
            }
        }
        if n >= min as usize {
            let Sym::Lit(c, _) = v[i] else { unreachable!() };
            out.push(Sym::Copy(c, n as u32, dist_sym));
            i += n;
        } else {
            out.push(v[i]);
            i += 1;
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct ModOpts {
    pub tree: Tree,
    pub wp: Wp,
    pub trs: Vec<Tr>,
    /// Transforms of the other sections.
    pub group_trs: Vec<Tr>,
    pub group_wp: Wp,
    /// Sections other than the first bring their own tree.
    pub group_tree: Option<Tree>,
    pub ans: bool,
    /// minimal run length coded as a copy
    pub copies: Option<u32>,
    /// Bits per sample of the channels (palettes).
    pub bits: u32,
    /// One cluster per context (needs at most 8 contexts); otherwise all in one.
    pub split_ctx: bool,
}
impl ModOpts {
    pub fn new(tree: Tree, bits: u32) -> ModOpts {
        ModOpts {
            tree,
            wp: Wp::dflt(),
            trs: vec![],
            group_trs: vec![],
            group_wp: Wp::dflt(),
            group_tree: None,
            ans: false,
            copies: None,
            bits,
            split_ctx: false,
        }
    }
    pub fn ent(&self, leaves: usize) -> Ent {
        let mut e = Ent::auto(leaves);
        if self.ans {
            e = e.ans();
        }
        if let Some(m) = self.copies {
            e = e.with_lz(224, m);
        }
        if self.split_ctx && leaves > 1 && leaves <= 8 {
            let n = leaves + self.copies.is_some() as usize;
            let map: Vec<u8> = (0..n).map(|i| i.min(7) as u8).collect();
            e = e.with_map(super::ent::CtxMap::Simple(map, 3));
        }
        e
    }
    fn run(&self, s: Vec<Sym>, width: usize) -> Vec<Sym> {
        match self.copies {
            // distance 1: the second special distance, or the first when there is no width
            Some(m) => runs(&s, m, if width > 0 { 1 } else { 0 }),
            None => s,
        }
    }
}
/// Where the modular parts of a frame's sections go.
pub struct Layout {
    pub group_dim: usize,
    /// frame size in samples
    pub size: (usize, usize),
    pub groups: (usize, usize),
    pub lf_groups: (usize, usize),
    /// smallest and largest shift of each pass
    pub passes: Vec<(i32, i32)>,
}
pub struct Sections {
    pub global: Bw,
    pub lf: Vec<Bw>,
    /// by pass and group
    pub hf: Vec<Vec<Bw>>,
    /// further sub-bitstreams
    pub extra: Vec<Bw>,
    /// decoded channels
    pub chans: Vec<Chan>,
}
/// Codes the modular channels of a frame. `target(stream, coded channel, x, y)`.
pub fn sections(lay: &Layout, chans: Vec<Chan>, o: &ModOpts, target: &mut dyn FnMut(u32, usize, usize, usize) -> i32) -> Sections {
    sections_with(lay, chans, o, &[], target)
}
/// The same with further sub-bitstreams (stream number, channels) that use the frame's tree and histograms.
pub fn sections_with(lay: &Layout, chans: Vec<Chan>, o: &ModOpts, extra: &[(u32, Vec<Chan>)], target: &mut dyn FnMut(u32, usize, usize, usize) -> i32) -> Sections {
    let mut all = Chans { c: chans, meta: 0 };
    let undo = all.forward(&o.trs).expect("global transforms");
    let gd = lay.group_dim;
    let mut ng = 0;
    while ng < all.c.len() && (ng < all.meta || (all.c[ng].w <= gd && all.c[ng].h <= gd)) {
        ng += 1;
    }
    let nlf = lay.lf_groups.0 * lay.lf_groups.1;
    let ngr = lay.groups.0 * lay.groups.1;
    let width = |c: &[Chan]| c.iter().map(|c| c.w).max().unwrap_or(0);
    // tokens with the global histograms: global first, then each section
    let has = !all.c.is_empty();
    let gw = width(&all.c[..ng]);
    let gtok = code(&mut all.c[..ng], &o.tree, &o.wp, 0, &mut |c, x, y| target(0, c, x, y));
    let gtok = o.run(gtok, gw);
    enum Part {
        Empty,
        Toks(Vec<Sym>),
        Own(Vec<Sym>),
    }
    let mut part = |lo: i32, hi: i32, cell: usize, id: u32, pos: (usize, usize)| -> Part {
        let mut sub = vec![];
        let mut place = vec![];
        for (i, c) in all.c.iter().enumerate().skip(ng) {
            let s = c.hs.min(c.vs);
            if s < lo || s > hi {
                continue;
            }
            let (cw, ch) = (cell >> c.hs, cell >> c.vs);
            let (x0, y0) = (pos.0 * cw, pos.1 * ch);
            if x0 >= c.w || y0 >= c.h {
                continue;
            }
            let (w, h) = (cw.min(c.w - x0), ch.min(c.h - y0));
            if w == 0 || h == 0 {
                continue;
            }
            sub.push(c.rect(x0, y0, w, h));
            place.push((i, x0, y0));
        }
        if sub.is_empty() {
            return Part::Empty;
        }
        let mut sub = Chans { c: sub, meta: 0 };
        let u = sub.forward(&o.group_trs).expect("group transforms");
        let w = width(&sub.c);
        let tree = o.group_tree.as_ref().unwrap_or(&o.tree);
        let toks = code(&mut sub.c, tree, &o.group_wp, id, &mut |c, x, y| target(id, c, x, y));
        let toks = o.run(toks, w);
        sub.inverse(&u, o.bits, &o.group_wp);
        for (s, (i, x0, y0)) in sub.c.iter().zip(&place) {
            let d = &mut all.c[*i];
            for y in 0..s.h {
                for x in 0..s.w {
                    d.data[(y0 + y) * d.w + x0 + x] = s.at(x, y);
                }
            }
        }
        if o.group_tree.is_some() { Part::Own(toks) } else { Part::Toks(toks) }
    };
    let lf: Vec<Part> = (0..nlf)
        .map(|g| part(3, i32::MAX, gd * 8, 1 + (nlf + g) as u32, (g % lay.lf_groups.0, g / lay.lf_groups.0)))
        .collect();
    let hf: Vec<Vec<Part>> = lay
        .passes
        .iter()
        .enumerate()
        .map(|(p, (lo, hi))| {
            (0..ngr)
                .map(|g| part(*lo, *hi, gd, (1 + 3 * nlf + 17 + ngr * p + g) as u32, (g % lay.groups.0, g / lay.groups.0)))
                .collect()
        })
        .collect();
    let extra: Vec<Part> = extra
        .iter()
        .map(|(id, c)| {
            let mut c2 = c.clone();
            let tree = o.group_tree.as_ref().unwrap_or(&o.tree);
            let toks = code(&mut c2, tree, &o.group_wp, *id, &mut |k, x, y| c[k].at(x, y));
            assert!(c2.iter().zip(c).all(|(a, b)| a.data == b.data), "inexact tree");
            let toks = o.run(toks, width(c));
            if o.group_tree.is_some() { Part::Own(toks) } else { Part::Toks(toks) }
        })
        .collect();
    let mut ent = o.ent(o.tree.leaves());
    {
        let mut toks: Vec<&[Sym]> = vec![&gtok];
        for p in lf.iter().chain(hf.iter().flatten()).chain(&extra) {
            if let Part::Toks(t) = p {
                toks.push(t);
            }
        }
        ent.prepare(&toks);
    }
    let mut global = Bw::new();
    global.b(has || !extra.is_empty());
    if has || !extra.is_empty() {
        o.tree.write(&mut global, Ent::auto(6));
        ent.write_header(&mut global);
    }
    if has {
        write_group_header(&mut global, true, &o.wp, &o.trs);
        if ng > 0 {
            ent.write_tokens(&mut global, &gtok);
        }
    }
    let emit2 = |p: &Part, trs: &[Tr]| -> Bw {
        let mut b = Bw::new();
        match p {
            Part::Empty => {}
            Part::Toks(t) => {
                write_group_header(&mut b, true, &o.group_wp, trs);
                ent.write_tokens(&mut b, t);
            }
            Part::Own(t) => {
                write_group_header(&mut b, false, &o.group_wp, trs);
                let tr = o.group_tree.as_ref().unwrap();
                tr.write(&mut b, Ent::auto(6));
                let mut e = o.ent(tr.leaves());
                e.prepare(&[t]);
                e.write_header(&mut b);
                e.write_tokens(&mut b, t);
            }
        }
        b
    };
    let emit = |p: &Part| emit2(p, &o.group_trs);
    let lf = lf.iter().map(emit).collect();
    let hf = hf.iter().map(|v| v.iter().map(emit).collect()).collect();
    let extra = extra.iter().map(|p| emit2(p, &[])).collect();
    all.inverse(&undo, o.bits, &o.wp);
    Sections { global, lf, hf, extra, chans: all.c }
}
