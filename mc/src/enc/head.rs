//! Image and frame headers.
use super::{Bw, claimed, D::*, ent::Ent, ent::Sym, pack_signed};

/// half-float bit pattern
pub type H = u16;

#[derive(Clone, Debug, PartialEq)]
pub struct Depth {
    pub float: bool,
    pub bits: u32,
    pub exp: u32,
}
impl Depth {
    pub fn int(bits: u32) -> Depth {
        Depth { float: false, bits, exp: 0 }
    }
    pub fn float(bits: u32, exp: u32) -> Depth {
        Depth { float: true, bits, exp }
    }
    fn write(&self, bw: &mut Bw) {
        bw.b(self.float);
        if self.float {
            bw.u32([V(32), V(16), V(24), B(6, 1)], self.bits);
            bw.u(4, self.exp as u64 - 1);
        } else {
            bw.u32([V(8), V(10), V(12), B(6, 1)], self.bits);
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ec {
    pub ty: u32,
    pub depth: Depth,
    pub dim_shift: u32,
    pub name: Vec<u8>,
    pub assoc: bool,
    pub spot: [H; 4],
    pub cfa: u32,
}
impl Ec {
    pub fn alpha() -> Ec {
        Ec { ty: 0, depth: Depth::int(8), dim_shift: 0, name: vec![], assoc: false, spot: [0; 4], cfa: 1 }
    }
    pub fn of(ty: u32) -> Ec {
        Ec { ty, ..Ec::alpha() }
    }
    fn write(&self, bw: &mut Bw) {
        let d = *self == Ec::alpha();
        if bw.dflt(d) {
            return;
        }
        bw.en(self.ty);
        self.depth.write(bw);
        bw.u32([V(0), V(3), V(4), B(3, 1)], self.dim_shift);
        bw.string(&self.name);
        match self.ty {
            0 => bw.b(self.assoc),
            2 => {
                for h in self.spot {
                    bw.f16(h)
                }
            }
            5 => bw.u32([V(1), B(2, 0), B(4, 3), B(8, 19)], self.cfa),
            _ => {}
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tf {
    Gamma(u32),
    Named(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Color {
    pub icc: bool,
    pub space: u32,
    pub wp: u32,
    pub wp_xy: (i32, i32),
    pub prim: u32,
    pub prim_xy: [(i32, i32); 3],
    pub tf: Tf,
    pub intent: u32,
}
impl Color {
    pub fn srgb() -> Color {
        Color { icc: false, space: 0, wp: 1, wp_xy: (0, 0), prim: 1, prim_xy: [(0, 0); 3], tf: Tf::Named(13), intent: 1 }
    }
    pub fn gray() -> Color {
        Color { space: 1, ..Color::srgb() }
    }
    fn xy(bw: &mut Bw, (x, y): (i32, i32)) {
        for v in [x, y] {
            bw.u32([B(19, 0), B(19, 524288), B(20, 1048576), B(21, 2097152)], pack_signed(v));
        }
    }
    fn write(&self, bw: &mut Bw) {
        let d = *self == Color::srgb();
        if bw.dflt(d) {
            return;
        }
        bw.b(self.icc);
        bw.en(self.space);
        if self.icc {
            return;
        }
        if self.space != 2 {
            bw.en(self.wp);
            if self.wp == 2 {
                Color::xy(bw, self.wp_xy);
            }
        }
        if self.space == 0 || self.space == 3 {
            bw.en(self.prim);
            if self.prim == 2 {
                for p in self.prim_xy {
                    Color::xy(bw, p);
                }
            }
        }
        match &self.tf {
            _ if self.space == 2 => {}
            Tf::Gamma(g) => {
                bw.b(true);
                bw.u(24, *g as u64);
            }
            Tf::Named(n) => {
                bw.b(false);
                bw.en(*n);
            }
        }
        bw.en(self.intent);
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Anim {
    pub num: u32,
    pub den: u32,
    pub loops: u32,
    pub timecodes: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tone {
    pub intensity: H,
    pub min_nits: H,
    pub relative: bool,
    pub linear_below: H,
}
impl Tone {
    pub fn dflt() -> Tone {
        Tone { intensity: 0x5bf8, min_nits: 0, relative: false, linear_below: 0 }
    }
}
#[derive(Clone, Debug)]
pub struct Image {
    pub w: u32,
    pub h: u32,
    pub orientation: u32,
    pub intrinsic: Option<(u32, u32)>,
    pub preview: Option<(u32, u32)>,
    pub anim: Option<Anim>,
    pub depth: Depth,
    pub m16: bool,
    pub ecs: Vec<Ec>,
    pub xyb: bool,
    pub color: Color,
    pub tone: Tone,
    pub ext: Vec<(u32, Vec<bool>)>,
    /// opsin inverse matrix, biases, quantisation biases (16 half floats)
    pub opsin: Option<[H; 16]>,
    /// custom upsampling kernels for 2x (15), 4x (55), 8x (210)
    pub kern: [Option<Vec<H>>; 3],
    /// Coded ICC stream (the bytes that the entropy decoder yields).
    pub icc_stream: Option<Vec<u8>>,
}
thread_local! {
    /// Replaces the orientation of every image written (0: the image's own).
    static ORIENT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn with_orientation<T>(o: u32, f: impl FnOnce() -> T) -> T {
    ORIENT.with(|c| c.set(o));
    let r = f();
    ORIENT.with(|c| c.set(0));
    r
}
impl Image {
    pub fn new(w: u32, h: u32) -> Image {
        Image {
            w,
            h,
            orientation: 1,
            intrinsic: None,
            preview: None,
            anim: None,
            depth: Depth::int(8),
            m16: true,
            ecs: vec![],
            xyb: false,
            color: Color::srgb(),
            tone: Tone::dflt(),
            ext: vec![],
            opsin: None,
            kern: [None, None, None],
            icc_stream: None,
        }
    }
    pub fn gray(w: u32, h: u32) -> Image {
        Image { color: Color::gray(), ..Image::new(w, h) }
    }
    pub fn colors(&self) -> usize {
        if self.color.space == 1 && !self.xyb { 1 } else { 3 }
    }
    pub fn write(&self, bw: &mut Bw) {
        bw.u(8, 0xff);
        bw.u(8, 0x0a);
        size(bw, self.w, self.h);
        let orientation = match ORIENT.with(|o| o.get()) {
            0 => self.orientation,
            o => o,
        };
        let extra = orientation != 1
            || self.intrinsic.is_some()
            || self.preview.is_some()
            || self.anim.is_some()
            || self.tone != Tone::dflt();
        let d = !extra
            && self.depth == Depth::int(8)
            && self.m16
            && self.ecs.is_empty()
            && self.xyb
            && self.color == Color::srgb()
            && self.ext.is_empty();
        if !bw.dflt(d) {
            // "extra fields" may also be present with their default values
            let e = extra || bw.alt(2) == 1;
            bw.b(e);
            if e {
                bw.u(3, orientation as u64 - 1);
                bw.b(self.intrinsic.is_some());
                if let Some((w, h)) = self.intrinsic {
                    size(bw, w, h);
                }
                bw.b(self.preview.is_some());
                if let Some((w, h)) = self.preview {
                    preview(bw, w, h);
                }
                bw.b(self.anim.is_some());
                if let Some(a) = &self.anim {
                    bw.u32([V(100), V(1000), B(10, 1), B(30, 1)], a.num);
                    bw.u32([V(1), V(1001), B(8, 1), B(10, 1)], a.den);
                    bw.u32([V(0), B(3, 0), B(16, 0), B(32, 0)], a.loops);
                    bw.b(a.timecodes);
                }
            }
            self.depth.write(bw);
            bw.b(self.m16);
            bw.u32([V(0), V(1), B(4, 2), B(12, 1)], self.ecs.len() as u32);
            for e in &self.ecs {
                e.write(bw);
            }
            bw.b(self.xyb);
            self.color.write(bw);
            if e {
                let t = &self.tone;
                if !bw.dflt(*t == Tone::dflt()) {
                    bw.f16(t.intensity);
                    bw.f16(t.min_nits);
                    bw.b(t.relative);
                    bw.f16(t.linear_below);
                }
            }
            bw.extensions(&self.ext);
        }
        let d = self.opsin.is_none() && self.kern.iter().all(|k| k.is_none());
        if !bw.dflt(d) {
            if self.xyb {
                match &self.opsin {
                    None => bw.b(true),
                    Some(o) => {
                        bw.b(false);
                        for h in o {
                            bw.f16(*h);
                        }
                    }
                }
            }
            for k in &self.kern {
                bw.b(k.is_some());
            }
            for (k, n) in self.kern.iter().zip([15, 55, 210]) {
                if let Some(k) = k {
                    assert_eq!(k.len(), n);
                    for h in k {
                        bw.f16(*h);
                    }
                }
            }
        }
        if let Some(icc) = &self.icc_stream {
            assert!(self.color.icc);
            bw.u64(claimed(icc.len()));
            let syms: Vec<Sym> = (0..icc.len()).map(|i| Sym::Lit(icc_ctx(icc, i), icc[i] as u32)).collect();
            let mut e = Ent::auto(41);
            e.prepare(&[&syms]);
            e.write_header(bw);
            e.write_tokens(bw, &syms);
        }
    }
}
/// Context of byte `i` of the coded ICC stream.
pub fn icc_ctx(s: &[u8], i: usize) -> usize {
    if i <= 128 {
        return 0;
    }
    let (b1, b2) = (s[i - 1], s[i - 2]);
    let p1 = match b1 {
        b'a'..=b'z' | b'A'..=b'Z' => 0,
        b'0'..=b'9' | b'.' | b',' => 1,
        0 | 1 => 2 + b1 as usize,
        2..=15 => 4,
        241..=254 => 5,
        255 => 6,
        _ => 7,
    };
    let p2 = match b2 {
        b'a'..=b'z' | b'A'..=b'Z' => 0,
        b'0'..=b'9' | b'.' | b',' => 1,
        0..=15 => 2,
        241..=255 => 3,
        _ => 4,
    };
    1 + p1 + p2 * 8
}
const RATIOS: [(u64, u64); 8] = [(0, 1), (1, 1), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)];
/// Image size; every way to write it is an alternative.
pub fn size(bw: &mut Bw, w: u32, h: u32) {
    let mut alt = vec![];
    for small in [true, false] {
        for r in 0..8usize {
            if small && !(h % 8 == 0 && h <= 256) {
                continue;
            }
            if r == 0 && small && !(w % 8 == 0 && w <= 256) {
                continue;
            }
            if r > 0 && h as u64 * RATIOS[r].0 / RATIOS[r].1 != w as u64 {
                continue;
            }
            alt.push((small, r));
        }
    }
    let k = bw.alt(alt.len());
    let (small, r) = alt[k];
    bw.b(small);
    let dim = |bw: &mut Bw, v: u32| {
        if small {
            bw.u(5, v as u64 / 8 - 1);
        } else {
            bw.u32([B(9, 1), B(13, 1), B(18, 1), B(30, 1)], v);
        }
    };
    dim(bw, h);
    bw.u(3, r as u64);
    if r == 0 {
        dim(bw, w);
    }
}
pub fn preview(bw: &mut Bw, w: u32, h: u32) {
    let mut alt = vec![];
    for d8 in [true, false] {
        for r in 0..8usize {
            let fits = |v: u32| if d8 { v % 8 == 0 && v <= 4352 } else { v <= 5440 };
            if !fits(h) || r == 0 && !fits(w) {
                continue;
            }
            if r > 0 && h as u64 * RATIOS[r].0 / RATIOS[r].1 != w as u64 {
                continue;
            }
            alt.push((d8, r));
        }
    }
    let k = bw.alt(alt.len());
    let (d8, r) = alt[k];
    bw.b(d8);
    let dim = |bw: &mut Bw, v: u32| {
        if d8 {
            bw.u32([V(16), V(32), B(5, 1), B(9, 33)], v / 8);
        } else {
            bw.u32([B(6, 1), B(8, 65), B(10, 321), B(12, 1345)], v);
        }
    };
    dim(bw, h);
    bw.u(3, r as u64);
    if r == 0 {
        dim(bw, w);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Blend {
    pub mode: u32,
    pub alpha: u32,
    pub clamp: bool,
    pub source: u32,
}
impl Blend {
    pub fn replace() -> Blend {
        Blend { mode: 0, alpha: 0, clamp: false, source: 0 }
    }
    fn write(&self, bw: &mut Bw, necs: usize, full: bool) {
        bw.u32([V(0), V(1), V(2), B(2, 3)], self.mode);
        let uses = necs > 0 && (self.mode == 2 || self.mode == 3);
        if uses {
            bw.u32([V(0), V(1), V(2), B(3, 3)], self.alpha);
        }
        if uses || self.mode == 4 {
            bw.b(self.clamp);
        }
        if !(full && self.mode == 0) {
            bw.u(2, self.source as u64);
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Passes {
    pub num: u32,
    pub shift: Vec<u32>,
    /// (downsampling, last pass)
    pub ds: Vec<(u32, u32)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rf {
    pub gab: bool,
    pub gab_custom: Option<[H; 6]>,
    pub epf: u32,
    pub sharp: Option<[H; 8]>,
    /// channel scale ×3, zero flush ×2
    pub weight: Option<[H; 5]>,
    /// quant_mul (VarDCT only), pass0 scale, pass2 scale, border SAD
    pub sigma: Option<[H; 4]>,
    pub sigma_modular: H,
    pub ext: Vec<(u32, Vec<bool>)>,
}
impl Rf {
    pub fn dflt() -> Rf {
        Rf { gab: true, gab_custom: None, epf: 2, sharp: None, weight: None, sigma: None, sigma_modular: 0x3c00, ext: vec![] }
    }
    pub fn none() -> Rf {
        Rf { gab: false, epf: 0, ..Rf::dflt() }
    }
    fn write(&self, bw: &mut Bw, modular: bool) {
        if bw.dflt(*self == Rf::dflt()) {
            return;
        }
        bw.b(self.gab);
        if self.gab {
            bw.b(self.gab_custom.is_some());
            for h in self.gab_custom.iter().flatten() {
                bw.f16(*h);
            }
        }
        bw.u(2, self.epf as u64);
        if self.epf > 0 {
            if !modular {
                bw.b(self.sharp.is_some());
                for h in self.sharp.iter().flatten() {
                    bw.f16(*h);
                }
            }
            bw.b(self.weight.is_some());
            for h in self.weight.iter().flatten() {
                bw.f16(*h);
            }
            bw.b(self.sigma.is_some());
            if let Some(s) = &self.sigma {
                for h in &s[modular as usize..] {
                    bw.f16(*h);
                }
            }
            if modular {
                bw.f16(self.sigma_modular);
            }
        }
        bw.extensions(&self.ext);
    }
}
#[derive(Clone, Debug)]
pub struct Frame {
    /// 0 regular, 1 LF, 2 reference only, 3 skip-progressive
    pub ty: u32,
    pub modular: bool,
    pub flags: u64,
    pub ycbcr: bool,
    pub jpeg_up: [u32; 3],
    pub up: u32,
    pub ec_up: Vec<u32>,
    pub gss: u32,
    pub xqm: u32,
    pub bqm: u32,
    pub passes: Passes,
    pub lf_level: u32,
    /// x0, y0, width, height
    pub crop: Option<(i32, i32, u32, u32)>,
    pub blend: Blend,
    pub ec_blend: Vec<Blend>,
    pub duration: u32,
    pub timecode: u32,
    pub is_last: bool,
    pub save_as: u32,
    pub before_ct: bool,
    pub name: Vec<u8>,
    pub rf: Rf,
    pub ext: Vec<(u32, Vec<bool>)>,
}
impl Frame {
    /// A last, full, lossless-friendly modular frame.
    pub fn new(img: &Image) -> Frame {
        let n = img.ecs.len();
        Frame {
            ty: 0,
            modular: true,
            flags: 0,
            ycbcr: false,
            jpeg_up: [0; 3],
            up: 1,
            ec_up: vec![1; n],
            gss: 1,
            xqm: 3,
            bqm: 2,
            passes: Passes { num: 1, shift: vec![], ds: vec![] },
            lf_level: 0,
            crop: None,
            blend: Blend::replace(),
            ec_blend: vec![Blend::replace(); n],
            duration: 0,
            timecode: 0,
            is_last: true,
            save_as: 0,
            before_ct: false,
            name: vec![],
            rf: Rf::none(),
            ext: vec![],
        }
    }
    pub fn normal(&self) -> bool {
        self.ty == 0 || self.ty == 3
    }
    pub fn has_lf(&self) -> bool {
        self.flags & 0x20 != 0
    }
    pub fn full(&self, img: &Image) -> bool {
        match self.crop {
            None => true,
            Some((x, y, w, h)) => {
                x <= 0 && y <= 0 && w as i64 + x as i64 >= img.w as i64 && h as i64 + y as i64 >= img.h as i64
            }
        }
    }
    pub fn can_be_referenced(&self) -> bool {
        !self.is_last && self.ty != 1 && (self.duration == 0 || self.save_as != 0)
    }
    pub fn visible(&self) -> bool {
        self.normal() && (self.is_last || self.duration > 0)
    }
    /// Whether the "before colour transform" bit is written.
    pub fn writes_before_ct(&self, img: &Image) -> bool {
        self.ty == 2 || (self.can_be_referenced() && self.blend.mode == 0 && self.full(img) && self.normal())
    }
    /// Size of the frame after upsampling.
    pub fn size_up(&self, img: &Image) -> (usize, usize) {
        let (w, h) = match self.crop {
            Some((_, _, w, h)) => (w, h),
            None => (img.w, img.h),
        };
        let d = 1u32 << (3 * self.lf_level);
        (w.div_ceil(d) as usize, h.div_ceil(d) as usize)
    }
    pub fn size(&self, img: &Image) -> (usize, usize) {
        let (w, h) = self.size_up(img);
        (w.div_ceil(self.up as usize), h.div_ceil(self.up as usize))
    }
    pub fn group_dim(&self) -> usize {
        if self.modular { 128 << self.gss } else { 256 }
    }
    pub fn max_shift(&self) -> (u32, u32) {
        let m = |t: [u32; 4]| self.jpeg_up.iter().map(|u| t[*u as usize]).max().unwrap();
        if self.ycbcr { (m([0, 1, 1, 0]), m([0, 1, 0, 1])) } else { (0, 0) }
    }
    pub fn size_blocks(&self, img: &Image) -> (usize, usize) {
        let (w, h) = self.size(img);
        let (hs, vs) = self.max_shift();
        (w.div_ceil(8 << hs) << hs, h.div_ceil(8 << vs) << vs)
    }
    pub fn groups(&self, img: &Image) -> (usize, usize) {
        let (w, h) = self.size(img);
        let g = self.group_dim();
        (w.div_ceil(g), h.div_ceil(g))
    }
    pub fn lf_groups(&self, img: &Image) -> (usize, usize) {
        let (w, h) = self.size_blocks(img);
        let g = self.group_dim();
        (w.div_ceil(g), h.div_ceil(g))
    }
    pub fn num_sections(&self, img: &Image) -> usize {
        let (gx, gy) = self.groups(img);
        let (lx, ly) = self.lf_groups(img);
        if gx * gy == 1 && self.passes.num == 1 { 1 } else { 2 + lx * ly + gx * gy * self.passes.num as usize }
    }
    /// (smallest, largest) channel shift coded in a pass
    pub fn bracket(&self, pass: usize) -> (i32, i32) {
        let mut max = 2;
        let mut min = 3;
        for i in 0..=pass {
            for (ds, last) in &self.passes.ds {
                if i == *last as usize {
                    min = ds.ilog2() as i32;
                }
            }
            if i + 1 == self.passes.num as usize {
                min = 0;
            }
            if i != pass {
                max = min - 1;
            }
        }
        (min, max)
    }
    pub fn write(&self, bw: &mut Bw, img: &Image) {
        let n = img.ecs.len();
        let dflt = self.ty == 0
            && !self.modular
            && self.flags == 0
            && !self.ycbcr
            && self.up == 1
            && self.ec_up.iter().all(|u| *u == 1)
            && (!img.xyb || (self.xqm == 3 && self.bqm == 2))
            && self.passes.num == 1
            && self.crop.is_none()
            && self.blend == Blend::replace()
            && self.ec_blend.iter().all(|b| *b == Blend::replace())
            && self.duration == 0
            && self.timecode == 0
            && self.is_last
            && self.name.is_empty()
            && self.rf == Rf::dflt()
            && self.ext.is_empty();
        if bw.dflt(dflt) {
            return;
        }
        bw.u(2, self.ty as u64);
        bw.b(self.modular);
        bw.u64(self.flags);
        if !img.xyb {
            bw.b(self.ycbcr);
        }
        if !self.has_lf() {
            if self.ycbcr {
                for u in self.jpeg_up {
                    bw.u(2, u as u64);
                }
            }
            bw.u32([V(1), V(2), V(4), V(8)], self.up);
            for u in &self.ec_up {
                bw.u32([V(1), V(2), V(4), V(8)], *u);
            }
        }
        if self.modular {
            bw.u(2, self.gss as u64);
        }
        if !self.modular && img.xyb {
            bw.u(3, self.xqm as u64);
            bw.u(3, self.bqm as u64);
        }
        if self.ty != 2 {
            let p = &self.passes;
            bw.u32([V(1), V(2), V(3), B(3, 4)], p.num);
            if p.num != 1 {
                bw.u32([V(0), V(1), V(2), B(1, 3)], p.ds.len() as u32);
                for i in 0..p.num as usize - 1 {
                    bw.u(2, p.shift[i] as u64);
                }
                for (d, _) in &p.ds {
                    bw.u32([V(1), V(2), V(4), V(8)], *d);
                }
                for (_, l) in &p.ds {
                    bw.u32([V(0), V(1), V(2), B(3, 0)], *l);
                }
            }
        }
        if self.ty == 1 {
            bw.u32([V(1), V(2), V(3), V(4)], self.lf_level);
        } else {
            bw.b(self.crop.is_some());
            if let Some((x, y, w, h)) = self.crop {
                let c = [B(8, 0), B(11, 256), B(14, 2304), B(30, 18688)];
                if self.ty != 2 {
                    bw.u32(c, pack_signed(x));
                    bw.u32(c, pack_signed(y));
                }
                bw.u32(c, w);
                bw.u32(c, h);
            }
        }
        let full = self.full(img);
        if self.normal() {
            self.blend.write(bw, n, full);
            for b in &self.ec_blend {
                b.write(bw, n, full);
            }
            if let Some(a) = &img.anim {
                bw.u32([V(0), V(1), B(8, 0), B(32, 0)], self.duration);
                if a.timecodes {
                    bw.u(32, self.timecode as u64);
                }
            }
            bw.b(self.is_last);
        }
        if self.ty != 1 && !self.is_last {
            bw.u(2, self.save_as as u64);
        }
        if self.writes_before_ct(img) {
            bw.b(self.before_ct);
        }
        bw.string(&self.name);
        self.rf.write(bw, self.modular);
        bw.extensions(&self.ext);
    }
}
