//! C21: the rendering features give at every pixel what they define on the whole picture, however the picture is divided
//! into groups and in whatever order these arrive.
use super::compose::Pic;
use super::formats::from_f16;
use super::headers::perms;
use super::lossless::hash3;
use super::upw::*;
use crate::dec::*;
use crate::enc::Bw;
use crate::enc::feat::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::engine::*;
use jxl::api::JxlParallelRunner;

// ------------------------------------------------------------------------------- the plain whole-picture renderer
#[derive(Clone)]
pub struct P {
    pub w: usize,
    pub h: usize,
    pub d: Vec<f64>,
}
pub fn mirror(mut i: i64, n: usize) -> usize {
    let n = n as i64;
    loop {
        if i < 0 {
            i = -i - 1;
        } else if i >= n {
            i = 2 * n - 1 - i;
        } else {
            return i as usize;
        }
    }
}
/// A picture with its mirrored surroundings.
struct Pad {
    s: usize,
    b: usize,
    d: Vec<f64>,
}
impl Pad {
    fn new(p: &P, b: usize) -> Pad {
        let s = p.w + 2 * b;
        let mut d = vec![0.0; s * (p.h + 2 * b)];
        for y in 0..p.h + 2 * b {
            let r = mirror(y as i64 - b as i64, p.h) * p.w;
            for x in 0..s {
                d[y * s + x] = p.d[r + mirror(x as i64 - b as i64, p.w)];
            }
        }
        Pad { s, b, d }
    }
    fn at(&self, x: i64, y: i64) -> f64 {
        self.d[(y + self.b as i64) as usize * self.s + (x + self.b as i64) as usize]
    }
}
impl P {
    pub fn make(w: usize, h: usize, mut f: impl FnMut(usize, usize) -> f64) -> P {
        let mut d = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                d.push(f(x, y));
            }
        }
        P { w, h, d }
    }
    pub fn crop(&self, w: usize, h: usize) -> P {
        assert!(w <= self.w && h <= self.h);
        P::make(w, h, |x, y| self.d[y * self.w + x])
    }
}
pub fn chroma(p: &P, horizontal: bool) -> P {
    let q = Pad::new(p, 1);
    let (w, h) = if horizontal { (2 * p.w, p.h) } else { (p.w, 2 * p.h) };
    P::make(w, h, |x, y| {
        if horizontal {
            let i = (x / 2) as i64;
            0.75 * q.at(i, y as i64) + 0.25 * q.at(i + if x % 2 == 0 { -1 } else { 1 }, y as i64)
        } else {
            let j = (y / 2) as i64;
            0.75 * q.at(x as i64, j) + 0.25 * q.at(x as i64, j + if y % 2 == 0 { -1 } else { 1 })
        }
    })
}
pub fn gab(p: &P, w1: f64, w2: f64) -> P {
    let q = Pad::new(p, 1);
    let t = 1.0 + 4.0 * (w1 + w2);
    P::make(p.w, p.h, |x, y| {
        let (x, y) = (x as i64, y as i64);
        let a = q.at(x - 1, y) + q.at(x + 1, y) + q.at(x, y - 1) + q.at(x, y + 1);
        let b = q.at(x - 1, y - 1) + q.at(x + 1, y - 1) + q.at(x - 1, y + 1) + q.at(x + 1, y + 1);
        (q.at(x, y) + w1 * a + w2 * b) / t
    })
}
/// One pass of the edge-preserving filter. `sigma` gives the reciprocal for a block.
pub fn epf(p: &[P], pass: u32, scale: f64, border: f64, weight: [f64; 3], sigma: &dyn Fn(usize, usize) -> f64) -> Vec<P> {
    let q: Vec<Pad> = p.iter().map(|p| Pad::new(p, 4)).collect();
    let mut near = vec![];
    for dy in -2..=2i64 {
        for dx in -2..=2i64 {
            let d = dx.abs() + dy.abs();
            if d > 0 && d <= if pass == 0 { 2 } else { 1 } {
                near.push((dx, dy));
            }
        }
    }
    let plus: &[(i64, i64)] = if pass == 2 { &[(0, 0)] } else { &[(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)] };
    let (w, h) = (p[0].w, p[0].h);
    let mut out: Vec<P> = p.to_vec();
    for y in 0..h {
        for x in 0..w {
            let s = sigma(x / 8, y / 8);
            if s < -3.905_242_917_512_7 {
                continue;
            }
            let edge = [x % 8, y % 8].iter().any(|v| *v == 0 || *v == 7);
            let mul = scale * 1.65 * if edge { border } else { 1.0 };
            let (xi, yi) = (x as i64, y as i64);
            let mut total = 1.0;
            let mut acc: Vec<f64> = (0..3).map(|c| q[c].at(xi, yi)).collect();
            for (dx, dy) in &near {
                let mut sad = 0.0;
                for c in 0..3 {
                    for (px, py) in plus {
                        sad += weight[c] * (q[c].at(xi + px, yi + py) - q[c].at(xi + px + dx, yi + py + dy)).abs();
                    }
                }
                let k = (1.0 + sad * s * mul).max(0.0);
                total += k;
                for c in 0..3 {
                    acc[c] += k * q[c].at(xi + dx, yi + dy);
                }
            }
            for c in 0..3 {
                out[c].d[y * w + x] = acc[c] / total;
            }
        }
    }
    out
}
pub fn upsample(p: &P, n: usize, weights: &[f64]) -> P {
    let q = Pad::new(p, 2);
    let half = 5 * n / 2;
    // weights of the upper triangle, row by row
    let tri = |a: usize, b: usize| {
        let (a, b) = (a.min(b), a.max(b));
        weights[half * a - a * (a + 1) / 2 + b]
    };
    // position of a tap counted from the nearer side
    let pos = |o: usize, k: usize| if o < n / 2 { 5 * o + k } else { 5 * (n - 1 - o) + 4 - k };
    P::make(n * p.w, n * p.h, |x, y| {
        let (i, j, ox, oy) = ((x / n) as i64, (y / n) as i64, x % n, y % n);
        let (mut s, mut lo, mut hi) = (0.0, f64::INFINITY, f64::NEG_INFINITY);
        for ky in 0..5 {
            for kx in 0..5 {
                let v = q.at(i + kx as i64 - 2, j + ky as i64 - 2);
                s += v * tri(pos(ox, kx), pos(oy, ky));
                lo = v.min(lo);
                hi = v.max(hi);
            }
        }
        s.clamp(lo, hi)
    })
}
/// Random pictures of a frame.
fn random(w: usize, h: usize, unit: usize, visible: u32, hidden: u32) -> [P; 3] {
    let mut out = [(); 3].map(|_| P::make(w, h, |_, _| 0.0));
    let mix = |mut z: u64| {
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    };
    for gy in 0..h.div_ceil(unit) {
        for gx in 0..w.div_ceil(unit) {
            let (x0, y0) = (gx * unit, gy * unit);
            let mut a = [0u64; 8];
            let mut b = [0u64; 8];
            a[0] = mix((((visible as u64) << 32) + hidden as u64).wrapping_add(0x9E3779B97F4A7C15));
            b[0] = mix((((x0 as u64) << 32) + y0 as u64).wrapping_add(0x9E3779B97F4A7C15));
            for i in 1..8 {
                a[i] = mix(a[i - 1]);
                b[i] = mix(b[i - 1]);
            }
            let mut batch = [0u32; 16];
            for p in &mut out {
                for y in y0..(y0 + unit).min(h) {
                    for (i, x) in (x0..(x0 + unit).min(w)).enumerate() {
                        if i % 16 == 0 {
                            for k in 0..8 {
                                let (mut s1, s0) = (a[k], b[k]);
                                let bits = s1.wrapping_add(s0);
                                a[k] = s0;
                                s1 ^= s1 << 23;
                                b[k] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
                                batch[2 * k] = bits as u32;
                                batch[2 * k + 1] = (bits >> 32) as u32;
                            }
                        }
                        p.d[y * w + x] = f32::from_bits(batch[i % 16] >> 9 | 0x3f800000) as f64;
                    }
                }
            }
        }
    }
    out
}
fn add_noise(c: &mut [P], lut: &[u32; 8], unit: usize, visible: u32, hidden: u32, corr: [f64; 2]) {
    if *lut == [0; 8] {
        return;
    }
    let (w, h) = (c[0].w, c[0].h);
    let r = random(w, h, unit, visible, hidden);
    let conv: Vec<P> = r
        .iter()
        .map(|p| {
            let q = Pad::new(p, 2);
            P::make(w, h, |x, y| {
                let mut s = 0.0;
                for dy in -2..=2i64 {
                    for dx in -2..=2i64 {
                        if (dx, dy) != (0, 0) {
                            s += q.at(x as i64 + dx, y as i64 + dy);
                        }
                    }
                }
                0.22 * (0.16 * s - 3.84 * q.at(x as i64, y as i64))
            })
        })
        .collect();
    let strength = |v: f64| {
        let s = (v * 6.0).max(0.0);
        let (i, f) = if s >= 7.0 { (6, 1.0) } else { (s.floor() as usize, s.fract()) };
        let l = |i: usize| lut[i] as f64 / 1024.0;
        (l(i) * (1.0 - f) + l(i + 1) * f).clamp(0.0, 1.0)
    };
    for i in 0..w * h {
        let (x, y) = (c[0].d[i], c[1].d[i]);
        let k = |n: usize| conv[n].d[i];
        let red = strength((y + x) * 0.5) * (k(0) / 128.0 + k(2) * 127.0 / 128.0);
        let green = strength((y - x) * 0.5) * (k(1) / 128.0 + k(2) * 127.0 / 128.0);
        c[0].d[i] += red - green + corr[0] * (red + green);
        c[1].d[i] += red + green;
        c[2].d[i] += corr[1] * (red + green);
    }
}
fn cl(v: f64, on: bool) -> f64 {
    if on { v.clamp(0.0, 1.0) } else { v }
}
/// A patch pixel `fg` onto the picture's pixel.
fn patch_pixel(img: &Image, b: &[PBlend], bg: &mut [f64], fg: &[f64]) {
    let old = bg.to_vec();
    let has_alpha = img.ecs.iter().any(|e| e.ty == 0);
    // (value below, value above, alpha below, alpha above)
    let over = |lo: f64, hi: f64, la: f64, ha: f64, clamp: bool, assoc: bool| {
        let ha = cl(ha, clamp);
        let na = 1.0 - (1.0 - ha) * (1.0 - la);
        if assoc {
            hi + lo * (1.0 - ha)
        } else if na > 0.0 {
            (hi * ha + lo * la * (1.0 - ha)) / na
        } else {
            0.0
        }
    };
    let both = |la: f64, ha: f64, clamp: bool| 1.0 - (1.0 - cl(ha, clamp)) * (1.0 - la);
    for c in (3..bg.len()).chain(0..3) {
        let m = &b[if c < 3 { 0 } else { c - 2 }];
        let a = 3 + m.alpha as usize;
        let (o, n) = (old[c], fg[c]);
        let assoc = m.mode >= 4 && !img.ecs.is_empty() && img.ecs[a - 3].ty == 0 && img.ecs[a - 3].assoc;
        let alpha = c >= 3 || has_alpha;
        bg[c] = match m.mode {
            0 => if c < 3 { o } else { bg[c] },
            1 => n,
            2 => o + n,
            3 => o * cl(n, m.clamp),
            4 if !alpha => n,
            5 if !alpha => o,
            6 | 7 if !alpha => o + n,
            4 if c == a => both(o, n, m.clamp),
            5 if c == a => both(n, o, m.clamp),
            6 if c == a => o,
            7 if c == a => n,
            4 => over(o, n, old[a], fg[a], m.clamp, assoc),
            5 => over(n, o, fg[a], old[a], m.clamp, assoc),
            6 => o + n * cl(fg[a], m.clamp),
            _ => n + o * cl(old[a], m.clamp),
        };
        if c == 0 && has_alpha && (m.mode == 4 || m.mode == 5) {
            bg[a] = if m.mode == 4 { both(old[a], fg[a], m.clamp) } else { both(fg[a], old[a], m.clamp) };
        }
    }
}
pub struct Extra<'a> {
    pub lut: Option<[u32; 8]>,
    pub patches: &'a [Patch],
    pub slots: [Option<Pic>; 4],
    pub visible: u32,
    pub hidden: u32,
    /// how much of the noise of Y goes to X and B
    pub corr: [f64; 2],
}
fn hf(x: u16) -> f64 {
    from_f16(x)
}
pub fn weights(img: &Image, n: u32) -> Vec<f64> {
    let k = n.ilog2() as usize - 1;
    match &img.kern[k] {
        Some(w) => w.iter().map(|x| hf(*x)).collect(),
        None => [&W2[..], &W4[..], &W8[..]][k].iter().map(|x| *x as f64).collect(),
    }
}
/// The picture of a modular frame, before blending and spot colours.
pub fn picture(img: &Image, f: &Frame, chans: &[Chan], e: &Extra) -> Pic {
    let nc = img.colors();
    let (w, h) = f.size(img);
    let plane = |k: usize, bits: u32| P { w: chans[k].w, h: chans[k].h, d: chans[k].data.iter().map(|v| *v as f64 / ((1u64 << bits) - 1) as f64).collect() };
    let mut c: Vec<P> = (0..3).map(|k| plane(if nc == 1 { 0 } else { k }, img.depth.bits)).collect();
    let ec: Vec<P> = (0..img.ecs.len()).map(|k| plane(nc + k, img.ecs[k].depth.bits)).collect();
    for (k, p) in c.iter_mut().enumerate() {
        let ch = &chans[if nc == 1 { 0 } else { k }];
        if ch.hs > 0 {
            *p = chroma(p, true).crop(w, p.h);
        }
        if ch.vs > 0 {
            *p = chroma(p, false).crop(w, h);
        }
    }
    let inv = -1.171_572_875_253_81 / hf(f.rf.sigma_modular);
    finish(img, f, c, ec, &|_, _| inv, e)
}
/// The rest of the way, from the colour planes of the frame's size and the extra channels as coded.
pub fn finish(img: &Image, f: &Frame, mut c: Vec<P>, mut ec: Vec<P>, sigma: &dyn Fn(usize, usize) -> f64, e: &Extra) -> Pic {
    let (w, h) = f.size(img);
    let (uw, uh) = f.size_up(img);
    let rf = &f.rf;
    if rf.gab {
        let g = rf.gab_custom.map(|g| g.map(hf)).unwrap_or([0.115169525, 0.061248592, 0.115169525, 0.061248592, 0.115169525, 0.061248592]);
        for k in 0..3 {
            c[k] = gab(&c[k], g[2 * k], g[2 * k + 1]);
        }
    }
    if rf.epf > 0 {
        let wt = rf.weight.map(|x| [hf(x[0]), hf(x[1]), hf(x[2])]).unwrap_or([40.0, 5.0, 3.5]);
        let s = rf.sigma.map(|x| x.map(hf)).unwrap_or([0.46, 0.9, 6.5, 2.0 / 3.0]);
        if rf.epf == 3 {
            c = epf(&c, 0, s[1], s[3], wt, sigma);
        }
        c = epf(&c, 1, 1.0, s[3], wt, sigma);
        if rf.epf >= 2 {
            c = epf(&c, 2, s[2], s[3], wt, sigma);
        }
    }
    let ups: Vec<u32> = (0..ec.len()).map(|k| f.ec_up[k] << img.ecs[k].dim_shift).collect();
    let late = ups.iter().all(|u| *u == f.up);
    if !late {
        for (p, u) in ec.iter_mut().zip(&ups) {
            if *u > 1 {
                *p = upsample(p, *u as usize, &weights(img, *u)).crop(uw, uh);
            }
        }
    }
    // patches
    for p in e.patches {
        let r = e.slots[p.src as usize].as_ref().expect("jxlmc-harness: no reference");
        let n = 3 + ec.len();
        for ((px, py), bl) in &p.at {
            for y in 0..p.rect.3 as usize {
                for x in 0..p.rect.2 as usize {
                    let (tx, ty) = (*px as usize + x, *py as usize + y);
                    if tx >= w || ty >= h {
                        continue;
                    }
                    let i = (p.rect.1 as usize + y) * r.w + p.rect.0 as usize + x;
                    let fg: Vec<f64> = (0..n).map(|k| r.c[k][i]).collect();
                    let mut bg: Vec<f64> = c.iter().chain(&ec).map(|q| q.d[ty * q.w + tx]).collect();
                    patch_pixel(img, bl, &mut bg, &fg);
                    for (q, v) in c.iter_mut().chain(&mut ec).zip(bg) {
                        let i = ty * q.w + tx;
                        q.d[i] = v;
                    }
                }
            }
        }
    }
    if f.up > 1 {
        let wt = weights(img, f.up);
        for p in c.iter_mut().chain(ec.iter_mut().filter(|_| late)) {
            *p = upsample(p, f.up as usize, &wt).crop(uw, uh);
        }
    }
    if let Some(l) = &e.lut {
        add_noise(&mut c, l, f.group_dim(), e.visible, e.hidden, e.corr);
    }
    Pic { w: uw, h: uh, c: c.into_iter().chain(ec).map(|p| p.d).collect() }
}
/// Colour conversion and spot colours.
pub fn shown(img: &Image, f: &Frame, mut p: Pic) -> Pic {
    for i in 0..p.w * p.h {
        if f.ycbcr {
            let (cb, y, cr) = (p.c[0][i], p.c[1][i] + 128.0 / 255.0, p.c[2][i]);
            p.c[0][i] = y + 1.402 * cr;
            p.c[1][i] = y - 0.299 * 1.402 / 0.587 * cr - 0.114 * 1.772 / 0.587 * cb;
            p.c[2][i] = y + 1.772 * cb;
        }
        for (k, e) in img.ecs.iter().enumerate() {
            if e.ty == 2 {
                let s = e.spot.map(hf);
                let m = s[3] * p.c[3 + k][i];
                for c in 0..3 {
                    p.c[c][i] = m * s[c] + (1.0 - m) * p.c[c][i];
                }
            }
        }
    }
    p
}

// ------------------------------------------------------------------------------------------------- files
/// A file: an optional reference frame for patches and one frame with features.
#[derive(Clone)]
pub struct Cfg {
    pub img: Image,
    pub f: Frame,
    pub lut: Option<[u32; 8]>,
    pub patches: Vec<Patch>,
    pub kind: u32,
    /// hidden frames in front
    pub hidden: u32,
    pub order: Option<Vec<usize>>,
}
pub fn sample(kind: u32, bits: u32, nc: usize, c: usize, x: usize, y: usize) -> i32 {
    let hsh = hash3(x as u32 + 7 * kind, y as u32, c as u32);
    if c >= nc {
        return (hsh % 256) as i32;
    }
    let max = (1u64 << bits) as i32 - 1;
    match kind % 3 {
        // small differences with some edges
        0 => max / 3 + (hsh % 97) as i32 * (max / 20000).max(1) / 4 + if (x / 13 + y / 9 + c) % 3 == 0 { max / 5 } else { 0 },
        1 => (hsh % (max as u32 + 1)) as i32,
        _ => max / 4 + ((x * 5 + y * 3 + 40 * c) as i32 * (max / 4000).max(1)) % (max / 2) + (hsh % 5) as i32,
    }
}
impl Cfg {
    pub fn new(w: usize, h: usize, gss: u32) -> Cfg {
        let mut img = Image::new(w as u32, h as u32);
        img.depth = Depth::int(16);
        img.m16 = false;
        let mut f = Frame::new(&img);
        f.gss = gss;
        Cfg { img, f, lut: None, patches: vec![], kind: 0, hidden: 0, order: None }
    }
    pub fn ecs(&mut self, v: Vec<(Ec, u32)>) {
        self.f.ec_up = v.iter().map(|e| e.1).collect();
        self.f.ec_blend = vec![Blend::replace(); v.len()];
        self.img.ecs = v.into_iter().map(|e| e.0).collect();
    }
    /// The file, where each section of the last frame ends, and the defined picture.
    pub fn build(&self) -> (Vec<u8>, Vec<usize>, Pic) {
        let (img, nc) = (&self.img, self.img.colors());
        let mut bw = Bw::new();
        img.write(&mut bw);
        let mut o = ModOpts::new(Tree::single(5), img.depth.bits);
        o.split_ctx = true;
        let mut ex = Extra { lut: self.lut, patches: &self.patches, slots: [None, None, None, None], visible: 1, hidden: 0, corr: [0.0, 1.0] };
        let none = Extra { lut: None, patches: &[], slots: [None, None, None, None], visible: 0, hidden: 0, corr: [0.0, 1.0] };
        for k in 0..self.hidden + !self.patches.is_empty() as u32 {
            let mut f = Frame::new(img);
            f.ty = 2;
            f.is_last = false;
            f.save_as = 1 + k % 3;
            f.before_ct = true;
            let (secs, ch) = modular_frame(img, &f, &o, None, &mut |_, c, x, y| sample(1, img.depth.bits, nc, c, x + 300 * (1 + k as usize), y));
            assemble(img, &f, &secs, None, &mut bw);
            ex.slots[f.save_as as usize] = Some(picture(img, &f, &ch, &none));
        }
        let mut f = self.f.clone();
        f.flags |= (self.lut.is_some() as u64) | if self.patches.is_empty() { 0 } else { 2 };
        let prefix = |bw: &mut Bw| {
            if !self.patches.is_empty() {
                patches(bw, &self.patches, img.ecs.len());
            }
            if let Some(l) = &self.lut {
                noise(bw, l);
            }
        };
        let (secs, ch) = modular_frame(img, &f, &o, Some(&prefix), &mut |_, c, x, y| sample(self.kind, img.depth.bits, nc, c, x, y));
        assemble(img, &f, &secs, self.order.as_deref(), &mut bw);
        let mut ends = vec![bw.bytes.len()];
        let ord = self.order.clone().unwrap_or((0..secs.len()).collect());
        for s in ord.iter().rev() {
            ends.push(ends.last().unwrap() - secs[*s].len());
        }
        ends.reverse();
        let p = picture(img, &f, &ch, &ex);
        (bw.bytes, ends, shown(img, &f, p))
    }
}
pub fn compare(out: &Outcome, img: &Image, p: &Pic, tol: f64) -> Result<(), String> {
    super::compose::check_shown(out, img, &[(0, p.clone())], tol)
}
const TOL: f64 = 4e-6;
fn judge(c: &Cfg) -> Result<u64, String> {
    let (data, _, p) = c.build();
    let out = oneshot(&data, &Opts::default(), FmtSel::F32All);
    compare(&out, &c.img, &p, TOL)?;
    Ok(out.digest())
}

// ------------------------------------------------------------------------------------------------ exploration
fn filters() -> Vec<(String, Rf)> {
    let mut v = vec![];
    for (g, epfs) in [(0, 0..4u32), (1, 0..4), (2, 0..4)] {
        for e in epfs {
            if g == 0 && e == 0 {
                continue;
            }
            let mut r = Rf::none();
            r.gab = g > 0;
            if g == 2 {
                r.gab_custom = Some([0x3000, 0x2c00, 0x3400, 0xa800, 0x2e66, 0x3266]);
            }
            r.epf = e;
            if g == 2 && e > 0 {
                r.weight = Some([0x4c00, 0x4800, 0x4400, 0, 0]);
                r.sigma = Some([0, 0x3a00, 0x4500, 0x3800]);
                r.sigma_modular = 0x3a00;
            }
            v.push((format!("gab{g}epf{e}"), r));
        }
    }
    // flat sigma: nothing is filtered; sigma at which all is smoothed
    v.push(("weak".into(), Rf { epf: 3, gab: false, sigma_modular: 0x3400, ..Rf::dflt() }));
    v.push(("strong".into(), Rf { epf: 3, gab: true, sigma_modular: 0x5000, ..Rf::dflt() }));
    v
}
/// Sizes of coded frames around the borders of groups of 128 and of blocks and vectors.
fn sizes(quick: bool) -> Vec<(usize, usize)> {
    let long: Vec<usize> = (1..=34).chain(61..=68).chain(120..=146).chain(254..=262).chain(383..=388).collect();
    let mut v = vec![];
    for (k, w) in long.iter().enumerate() {
        for h in [1usize, 2, 3, 4, 6, 9, 17] {
            if quick && (k + h) % 3 != 0 && *w < 120 {
                continue;
            }
            v.push((*w, h));
            v.push((h, *w));
        }
    }
    v.extend([(129, 130), (127, 131), (257, 133), (140, 256), (261, 259), (386, 129)]);
    v.sort();
    v.dedup();
    v
}
struct Backward;
impl JxlParallelRunner for Backward {
    fn run<'a>(&mut self, num: usize, fun: &'a (dyn Fn(usize) -> Result<(), jxl::error::Error> + Sync + 'a)) -> Result<(), jxl::error::Error> {
        for i in (0..num).rev() {
            fun(i)?;
        }
        Ok(())
    }
}
type Maker = Box<dyn Fn(usize, usize) -> Cfg + Sync + Send>;
/// All kinds of content, for a coded size.
fn kinds() -> Vec<(String, Maker)> {
    let mut v: Vec<(String, Maker)> = vec![];
    for (n, rf) in filters() {
        for gss in [0, 1] {
            let rf = rf.clone();
            v.push((
                format!("{n}/gss{gss}"),
                Box::new(move |w, h| {
                    let mut c = Cfg::new(w, h, gss);
                    c.f.rf = rf.clone();
                    c
                }),
            ));
        }
    }
    for up in [2u32, 4, 8] {
        for (n, rf) in [("plain", Rf::none()), ("gab1epf2", Rf::dflt())] {
            for custom in [false, true] {
                let rf = rf.clone();
                v.push((
                    format!("up{up}/{n}/{custom}"),
                    Box::new(move |w, h| {
                        // the last coded column and row are only partly used
                        let (cut_x, cut_y) = ((w * 3 + h) % up as usize, (h * 3 + w) % up as usize);
                        let mut c = Cfg::new(w * up as usize - cut_x, h * up as usize - cut_y, 0);
                        c.f.up = up;
                        c.f.rf = rf.clone();
                        c.kind = 1 + custom as u32;
                        if custom {
                            let k = up.ilog2() as usize - 1;
                            c.img.kern[k] = Some((0..[15, 55, 210][k]).map(|i| 0x2000 + (i as u16 * 37 % 0x900) | ((i as u16 % 5 == 3) as u16) << 15).collect());
                        }
                        c
                    }),
                ));
            }
        }
    }
    for k in 1..64u32 {
        let fs = filters();
        let u = [k & 3, k >> 2 & 3, k >> 4];
        v.push((
            format!("ycbcr{u:?}"),
            Box::new(move |w, h| {
                let mut c = Cfg::new(w, h, 0);
                c.f.ycbcr = true;
                c.f.jpeg_up = u;
                c.kind = 1;
                if k % 4 == 1 {
                    c.f.rf = Rf::dflt();
                    c.kind = 0;
                }
                if k % 4 == 2 {
                    c.f.rf = fs[k as usize / 4 % fs.len()].1.clone();
                    c.kind = 0;
                }
                c
            }),
        ));
    }
    for (n, gss, up, hidden) in [("a", 0, 1, 0), ("b", 1, 1, 2), ("c", 0, 2, 1), ("d", 0, 4, 0), ("e", 0, 8, 3)] {
        v.push((
            format!("noise{n}"),
            Box::new(move |w, h| {
                let mut c = Cfg::new(w * up as usize, h * up as usize, gss);
                c.f.up = up;
                c.hidden = hidden;
                c.lut = Some([100, 0, 300, 1023, 500, 80, 700, 20]);
                c.kind = 1;
                c
            }),
        ));
    }
    for (n, up, eu, sh) in [("a", 1, 1, 1), ("b", 1, 2, 1), ("c", 1, 8, 0), ("d", 2, 2, 0), ("e", 2, 4, 0), ("f", 2, 1, 2), ("g", 4, 8, 0), ("h", 1, 4, 0), ("i", 8, 1, 3), ("j", 1, 2, 0), ("k", 1, 8, 0), ("l", 1, 1, 3)] {
        v.push((
            format!("ec{n}"),
            Box::new(move |w, h| {
                let mut c = Cfg::new((w * up as usize).saturating_sub(1).max(1), h * up as usize, 0);
                c.f.up = up;
                // amplifies rounding errors of the filters: not with strong ones
                let spot = if "kl".contains(n) { Ec::of(3) } else { Ec { spot: [0x3800, 0x3c00, 0xb800, 0x3a00], ..Ec::of(2) } };
                c.ecs(vec![(Ec { dim_shift: sh, ..Ec::of(1) }, eu), (Ec { dim_shift: sh, ..spot }, eu), (Ec::alpha(), up)]);
                if n == "a" || n == "h" {
                    c.f.rf = Rf::dflt();
                }
                if n == "k" || n == "l" {
                    c.f.rf = Rf { epf: 3, ..Rf::dflt() };
                }
                c
            }),
        ));
    }
    // borders of every width next to extra channels of every size
    for (n, rf) in [("none".to_string(), Rf::none())].into_iter().chain(filters()) {
        for (up, eu, noise) in [(1, 2, false), (1, 2, true), (1, 4, true), (1, 8, true), (2, 4, false), (2, 8, true), (4, 8, true)] {
            let g2 = rf.gab_custom.is_some() && (up, eu, noise) != (1, 2, false);
            if g2 || rf.epf == 0 && !noise || up > 1 && rf.epf == 2 || up > 1 && !rf.gab {
                continue;
            }
            let rf = rf.clone();
            v.push((
                format!("ecb{n}-{up}-{eu}-{noise}"),
                Box::new(move |w, h| {
                    let mut c = Cfg::new(w * up as usize, h * up as usize, 0);
                    c.f.up = up;
                    c.ecs(vec![(Ec::of(1), eu)]);
                    c.f.rf = rf.clone();
                    if noise {
                        c.lut = Some([100, 0, 300, 1023, 500, 80, 700, 20]);
                    }
                    c
                }),
            ));
        }
    }
    for (n, up, with) in [("a", 1, 0), ("b", 1, 1), ("c", 2, 2), ("d", 1, 3), ("e", 1, 4)] {
        v.push((
            format!("patches{n}"),
            Box::new(move |w, h| {
                let mut c = Cfg::new(w * up as usize, h * up as usize, 0);
                c.f.up = up;
                c.kind = 1;
                let ecs: Vec<Ec> = match with {
                    0 => vec![],
                    1 => vec![Ec::alpha()],
                    2 => vec![Ec { assoc: true, ..Ec::alpha() }, Ec::of(1)],
                    3 => vec![Ec::alpha(), Ec { assoc: true, ..Ec::alpha() }, Ec::of(3)],
                    _ => vec![Ec::of(1)],
                };
                let n = ecs.len();
                c.ecs(ecs.into_iter().map(|e| (e, up)).collect());
                let mut ps = vec![];
                let modes: Vec<u32> = if n == 0 { vec![1, 2, 3, 0, 1] } else { vec![4, 5, 6, 7, 1, 2, 3, 4, 6, 0] };
                for (k, m) in modes.into_iter().enumerate() {
                    let alpha = |j: u32| if with == 3 { j % 2 } else { 0 };
                    let b: Vec<PBlend> = (0..=n as u32)
                        .map(|j| {
                            let mode = if j == 0 { m } else { (m + 3 * j * k as u32) % 8 };
                            let (has, any) = (with != 4, mode >= 4);
                            PBlend { mode: if !has && any { mode - 4 } else { mode }, alpha: if any && has { alpha(j + k as u32) } else { 0 }, clamp: mode >= 3 && (has || mode == 7 || mode == 3) && (k + j as usize) % 2 == 0 }
                        })
                        .collect();
                    let (rw, rh) = (1 + (w - 1) * (k + 1) / 11, 1 + (h - 1) * (11 - k) / 12);
                    let at: Vec<((u32, u32), Vec<PBlend>)> = [(0, 0), (w - rw, h - rh), ((w - rw) / 2, (h - rh) / 3), ((w - rw) * k / 11, 0)].into_iter().map(|(x, y)| ((x as u32, y as u32), b.clone())).collect();
                    ps.push(Patch { src: 1, rect: (((w - rw) / 3) as u32, ((h - rh) / 2) as u32, rw as u32, rh as u32), at });
                }
                c.patches = ps;
                c
            }),
        ));
    }
    v
}
fn grid(ctx: &Ctx) {
    let ks = kinds();
    let ss = sizes(ctx.quick());
    ctx.note(format!("{} contents, {} sizes", ks.len(), ss.len()));
    // for the many mixtures of borders only sizes just above a group
    let few: Vec<usize> = (0..ss.len()).filter(|i| (ss[*i].0 > 128) != (ss[*i].1 > 128) && ss[*i].0 * ss[*i].1 < 8000).collect();
    let jobs: Vec<(usize, usize)> = (0..ks.len()).flat_map(|k| (0..ss.len().div_ceil(24)).map(move |b| (k, b))).collect();
    ctx.par(jobs.len(), |j| {
        let (k, b) = jobs[j];
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("grid/{}/{b}", ks[k].0), || {
            let (mut d, mut n) = (0, 0);
            for (i, (w, h)) in ss.iter().enumerate().skip(24 * b).take(24) {
                if ks[k].0.starts_with("ecb") && (!few.contains(&i) || (i + k) % ctx.pick(7, 2) != 0) {
                    continue;
                }
                let heavy = !ks[k].0.starts_with("gab") || w * h > 8000;
                if ctx.quick() && heavy && !ks[k].0.starts_with("ecb") && (i + k) % if w * h > 8000 { 11 } else { 3 } != 0 {
                    continue;
                }
                let c = (ks[k].1)(*w, *h);
                d = hash(&(d, judge(&c).map_err(|e| format!("coded size {w}x{h}: {e}"))?));
                n += 1;
            }
            Ok(Obs::batch(d, n, n))
        });
    });
}
/// All orders of the groups of small frames, group by group.
fn arrivals(ctx: &Ctx) {
    let ks = kinds();
    let mut jobs = vec![];
    for (k, (n, _)) in ks.iter().enumerate() {
        for (s, (w, h)) in [(131usize, 133usize), (140, 129), (259, 131), (270, 260)].into_iter().enumerate() {
            let few = n.contains("gss1") || n.starts_with("up8") || n.starts_with("ycbcr") && k % 9 != 0 || n.starts_with("ecb") && (k % 5 != 0 || s > 2) || n == "noisee";
            if few || ctx.quick() && (s > 1 && (k + s) % 6 != 0 || s < 2 && (k + s) % 3 != 0) {
                continue;
            }
            jobs.push((k, w, h));
        }
    }
    ctx.note(format!("{} contents with all arrival orders", jobs.len()));
    ctx.par(jobs.len(), |j| {
        let (k, w, h) = jobs[j];
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("arrival/{}/{w}x{h}", ks[k].0), || {
            let mut c = (ks[k].1)(w, h);
            let first = c.build();
            let want = oneshot(&first.0, &Opts::default(), FmtSel::F32All);
            compare(&want, &c.img, &first.2, TOL)?;
            let ns = first.1.len() - 1;
            let ng = c.f.groups(&c.img).0 * c.f.groups(&c.img).1;
            let head = ns - ng;
            let mut orders: Vec<Vec<usize>> = vec![];
            if ng <= 4 {
                orders = perms(ng);
            } else {
                // every group first and every group last, both ways round
                for a in 0..ng {
                    for b in 0..ng {
                        if a != b && (!ctx.quick() || (a + 2 * b) % 5 == 0) {
                            let mid: Vec<usize> = (0..ng).filter(|g| *g != a && *g != b).collect();
                            orders.push([vec![a], mid.clone(), vec![b]].concat());
                            orders.push([vec![a], mid.into_iter().rev().collect(), vec![b]].concat());
                        }
                    }
                }
            }
            let mut n = 1;
            let cap = ctx.pick(10, 200);
            let step = orders.len().div_ceil(cap);
            for (q, o) in orders.iter().enumerate().step_by(step) {
                c.order = Some((0..head).chain(o.iter().map(|g| g + head)).collect());
                let (data, ends, _) = c.build();
                let mut s = Script::new(&data, 0);
                let opts = Opts::default();
                let mut plan = Plan::new(&opts);
                let mut back = Backward;
                if q % 2 == 1 {
                    plan.runner = Some(&mut back);
                }
                let out = run(&mut plan, &mut s, &ends);
                if let Some(d) = frames_differ(&want, &out) {
                    return Err(format!("groups in the order {o:?} one by one: {d}"));
                }
                n += 1;
            }
            Ok(Obs::batch(want.digest(), n, n))
        });
    });
}
fn frames_differ(a: &Outcome, b: &Outcome) -> Option<String> {
    if a.end != b.end || a.frames.len() != b.frames.len() {
        return Some(format!("{:?}, {} frames instead of {:?}, {}", b.end, b.frames.len(), a.end, a.frames.len()));
    }
    a.frames.iter().zip(&b.frames).find_map(|(x, y)| frame_diff(x, y))
}
pub fn c21(ctx: &Ctx) {
    ctx.set_rule("state space: rendering features x coded sizes around the borders of vectors, blocks and groups x group sizes, every pixel compared with a plain renderer of the whole picture; and every order in which the groups can arrive one by one (2 and 4 groups: all; 6 and 9: every first and last group), with work items run forwards and backwards, compared exactly with the decode at once; non-vacuous: pictures with several groups");
    ctx.assume("float output is within 4e-6 of the definition in double precision; VarDCT frames are checked through the corpus by the schedule and delivery properties");
    grid(ctx);
    arrivals(ctx);
}
