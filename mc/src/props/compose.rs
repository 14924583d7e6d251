//! C17: frames are composed exactly as their headers say.
use super::lossless::{hash3, pattern};
use crate::dec::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::enc::*;
use crate::engine::*;

/// Real-valued samples of a picture, by channel (colour is always three channels).
#[derive(Clone, Debug)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub c: Vec<Vec<f64>>,
}
impl Pic {
    pub fn zero(w: usize, h: usize, n: usize) -> Pic {
        Pic { w, h, c: vec![vec![0.0; w * h]; n] }
    }
}
/// The picture that decoded modular channels stand for.
pub fn to_pic(img: &Image, chans: &[Chan]) -> Pic {
    let nc = img.colors();
    let (w, h) = (chans[0].w, chans[0].h);
    let f = |c: &Chan, bits: u32| c.data.iter().map(|v| *v as f64 / ((1u64 << bits) - 1) as f64).collect::<Vec<_>>();
    let mut c: Vec<Vec<f64>> = (0..3).map(|i| f(&chans[if nc == 1 { 0 } else { i }], img.depth.bits)).collect();
    for (i, e) in img.ecs.iter().enumerate() {
        c.push(f(&chans[nc + i], e.depth.bits));
    }
    Pic { w, h, c }
}
fn cl(v: f64, on: bool) -> f64 {
    if on { v.clamp(0.0, 1.0) } else { v }
}
/// The defined composition of one pixel: `bg` stored picture, `fg` new frame.
pub fn blend_pixel(img: &Image, f: &Frame, bg: &[f64], fg: &[f64], out: &mut [f64]) {
    let has_alpha = img.ecs.iter().any(|e| e.ty == 0);
    for i in 0..img.ecs.len() {
        let b = &f.ec_blend[i];
        let (a, o, n) = (b.alpha as usize, bg[3 + i], fg[3 + i]);
        let (fa, ba) = if b.mode == 2 || b.mode == 3 { (cl(fg[3 + a], b.clamp), bg[3 + a]) } else { (0.0, 0.0) };
        out[3 + i] = match b.mode {
            0 => n,
            1 => o + n,
            2 => {
                let na = 1.0 - (1.0 - fa) * (1.0 - ba);
                if a == i {
                    na
                } else if img.ecs[a].ty == 0 && img.ecs[a].assoc {
                    n + o * (1.0 - fa)
                } else if na > 0.0 {
                    (n * fa + o * ba * (1.0 - fa)) / na
                } else {
                    0.0
                }
            }
            3 => if a == i { o } else { o + n * fa },
            _ => o * cl(n, b.clamp),
        };
    }
    let b = &f.blend;
    let a = b.alpha as usize;
    let (fa, ba) = if has_alpha && (b.mode == 2 || b.mode == 3) { (cl(fg[3 + a], b.clamp), bg[3 + a]) } else { (0.0, 0.0) };
    let na = 1.0 - (1.0 - fa) * (1.0 - ba);
    for c in 0..3 {
        let (o, n) = (bg[c], fg[c]);
        out[c] = match b.mode {
            0 => n,
            1 => o + n,
            2 if !has_alpha => n,
            2 if img.ecs[a].ty == 0 && img.ecs[a].assoc => n + o * (1.0 - fa),
            2 => if na > 0.0 { (n * fa + o * ba * (1.0 - fa)) / na } else { 0.0 },
            3 if !has_alpha => o + n,
            3 => o + n * fa,
            _ => o * cl(n, b.clamp),
        };
    }
    // blending the colour with an alpha channel also composes that channel
    if b.mode == 2 && has_alpha {
        out[3 + a] = na;
    }
}
pub struct Composer {
    pub slots: [Option<Pic>; 4],
    pub shown: Vec<(u32, Pic)>,
}
impl Composer {
    pub fn new() -> Composer {
        Composer { slots: [None, None, None, None], shown: vec![] }
    }
    /// `p`: the frame's picture at its own size.
    pub fn frame(&mut self, img: &Image, f: &Frame, p: Pic) {
        let n = p.c.len();
        let (w, h) = (img.w as usize, img.h as usize);
        let mut canvas = p.clone();
        let plain = f.blend.mode == 0 && f.ec_blend.iter().all(|b| b.mode == 0);
        if f.normal() && (f.crop.is_some() || !plain) {
            canvas = Pic::zero(w, h, n);
            let (x0, y0) = f.crop.map(|c| (c.0 as i64, c.1 as i64)).unwrap_or((0, 0));
            let (mut bg, mut fg, mut out) = (vec![0.0; n], vec![0.0; n], vec![0.0; n]);
            for y in 0..h {
                for x in 0..w {
                    for c in 0..n {
                        let s = if c < 3 { f.blend.source } else { f.ec_blend[c - 3].source };
                        bg[c] = self.slots[s as usize].as_ref().map(|p| p.c[c][y * w + x]).unwrap_or(0.0);
                    }
                    let (fx, fy) = (x as i64 - x0, y as i64 - y0);
                    if fx >= 0 && fy >= 0 && fx < p.w as i64 && fy < p.h as i64 {
                        for c in 0..n {
                            fg[c] = p.c[c][fy as usize * p.w + fx as usize];
                        }
                        blend_pixel(img, f, &bg, &fg, &mut out);
                        for c in 0..n {
                            canvas.c[c][y * w + x] = out[c];
                        }
                    } else {
                        for c in 0..n {
                            canvas.c[c][y * w + x] = bg[c];
                        }
                    }
                }
            }
        }
        if f.can_be_referenced() {
            self.slots[f.save_as as usize] = Some(if f.before_ct { p } else { canvas.clone() });
        }
        if f.visible() {
            self.shown.push((f.duration, canvas));
        }
    }
}
/// Compares shown pictures with the decoder's float output.
pub fn check_shown(out: &Outcome, img: &Image, shown: &[(u32, Pic)], tol: f64) -> Result<(), String> {
    if out.end != End::Done {
        return Err(format!("does not decode: {:?}", out.end));
    }
    if out.frames.len() != shown.len() {
        return Err(format!("{} frames are shown, {} defined", out.frames.len(), shown.len()));
    }
    for (k, (dur, p)) in shown.iter().enumerate() {
        let f = &out.frames[k];
        if f.size != (p.w, p.h) {
            return Err(format!("frame {k} has size {:?}, defined {:?}", f.size, (p.w, p.h)));
        }
        if let Some(a) = &img.anim {
            let want = *dur as f64 * 1000.0 * a.den as f64 / a.num as f64;
            if f.duration.unwrap_or(0.0) != want {
                return Err(format!("frame {k} has duration {:?}, defined {want}", f.duration));
            }
        }
        let nc = img.colors();
        let data: Vec<Vec<f32>> = (0..f.bufs.len()).map(|i| f.f32s(i)).collect();
        for (c, v) in p.c.iter().enumerate() {
            if c < 3 && c >= nc {
                continue;
            }
            for (i, want) in v.iter().enumerate() {
                let got = if c < 3 { data[0][i * nc + c] } else { data[c - 2][i] } as f64;
                if !((got - want).abs() <= tol * want.abs().max(1.0)) {
                    return Err(format!("frame {k} channel {c} sample ({},{}) is {got}, defined {want}", i % p.w, i / p.w));
                }
            }
        }
    }
    Ok(())
}
/// A file of modular frames with pattern contents and its defined result.
pub fn build(img: &Image, frames: &[Frame], value: &dyn Fn(usize, usize, usize, usize) -> i32) -> (Vec<u8>, Composer) {
    let mut bw = Bw::new();
    img.write(&mut bw);
    let mut comp = Composer::new();
    for (k, f) in frames.iter().enumerate() {
        let mut o = ModOpts::new(Tree::single(0), img.depth.bits);
        o.split_ctx = true;
        let (secs, ch) = modular_frame(img, f, &o, None, &mut |_, c, x, y| value(k, c, x, y));
        assemble(img, f, &secs, None, &mut bw);
        comp.frame(img, f, to_pic(img, &ch));
    }
    (bw.bytes, comp)
}
/// Sample values: colours partly outside the nominal range, alpha with its extremes.
pub fn value(nc: usize) -> impl Fn(usize, usize, usize, usize) -> i32 {
    move |k, c, x, y| {
        let h = hash3(x as u32 + 100 * k as u32, y as u32, c as u32);
        if c < nc {
            (h % 400) as i32 - 70
        } else {
            [0, 255, 128, 255, 17, 300, -40, 90][(h % 8) as usize]
        }
    }
}
fn base_img(assoc: bool, ecs: usize, gray: bool, anim: bool) -> Image {
    let mut i = if gray { Image::gray(5, 4) } else { Image::new(5, 4) };
    if ecs > 0 {
        i.ecs.push(Ec { assoc, ..Ec::alpha() });
    }
    if ecs > 1 {
        i.ecs.push(Ec::of(16));
    }
    if ecs > 2 {
        i.ecs.push(Ec::of(0));
    }
    if anim {
        i.anim = Some(Anim { num: 100, den: 1, loops: 0, timecodes: false });
    }
    i
}
pub const CROPS: [Option<(i32, i32, u32, u32)>; 9] = [
    None,
    Some((1, 1, 2, 2)),
    Some((-2, -1, 4, 3)),
    Some((3, 2, 5, 5)),
    Some((-1, -1, 9, 8)),
    Some((6, 0, 2, 2)),
    Some((0, 0, 5, 4)),
    Some((0, -3, 5, 3)),
    Some((0, 0, 5, 2)),
];
pub fn c17(ctx: &Ctx) {
    ctx.set_rule("every shown frame of every explored frame sequence equals the composition model applied to the coded frames (colour and all extra channels)");
    let decode = |data: &[u8]| oneshot(data, &Opts { adjust_orientation: false, render_spot_colors: false, ..Opts::default() }, FmtSel::F32All);
    let go = |img: &Image, frames: &[Frame]| -> CaseResult {
        let (data, comp) = build(img, frames, &value(img.colors()));
        let o = decode(&data);
        check_shown(&o, img, &comp.shown, 2e-5)?;
        Ok(Obs::new(o.digest(), frames.len() as u64))
    };
    let first = |img: &Image, save: u32, dur: u32| {
        let mut f = Frame::new(img);
        f.is_last = false;
        f.save_as = save;
        f.duration = dur;
        f
    };
    // 1. one stored frame, then every blend
    for (assoc, ecs, gray) in [(false, 2, false), (true, 2, false), (false, 1, true), (false, 0, false), (true, 3, false), (false, 0, true)] {
        let img = base_img(assoc, ecs, gray, true);
        let n = CROPS.len() * 5 * 5usize.pow(ecs as u32) * ecs.max(1) * 2 * 3;
        let step = if ecs == 3 { ctx.pick(7, 1) } else { 1 };
        ctx.par(n.div_ceil(step), |i| {
            let mut r = i * step;
            let mut take = |k: usize| {
                let v = r % k;
                r /= k;
                v
            };
            let mut f = Frame::new(&img);
            f.blend.mode = take(5) as u32;
            f.crop = CROPS[take(CROPS.len())];
            f.blend.clamp = take(2) == 1;
            f.blend.source = [1, 0, 3][take(3)];
            let a = take(ecs.max(1)) as u32;
            f.blend.alpha = a;
            for e in 0..ecs {
                f.ec_blend[e] = Blend { mode: take(5) as u32, alpha: (a + e as u32) % ecs as u32, clamp: f.blend.clamp ^ (e == 1), source: (f.blend.source + e as u32) % 4 };
            }
            if f.blend.mode == 0 && f.full(&img) {
                f.blend.source = 0;
            }
            // fields that are not coded have their default
            for b in std::iter::once(&mut f.blend).chain(f.ec_blend.iter_mut()) {
                fix(b, ecs);
            }
            let full = f.full(&img);
            for b in std::iter::once(&mut f.blend).chain(f.ec_blend.iter_mut()) {
                if full && b.mode == 0 {
                    b.source = 0;
                }
            }
            if color_alpha_conflict(&f) {
                return;
            }
            ctx.case(&format!("pair/{}{ecs}{}/{i}", if assoc { "p" } else { "s" }, if gray { "g" } else { "c" }), || {
                go(&img, &[first(&img, 1, 0), f.clone()]).map_err(|e| format!("{:?} {:?} {:?}: {e}", f.crop, f.blend, f.ec_blend))
            });
        });
    }
    // 2. sequences: slots, durations, saving, types
    {
        let img = base_img(false, 1, false, true);
        let mut alpha = vec![];
        for ty in [0u32, 2, 3] {
            for crop in [None, Some((1, -1, 3, 4))] {
                for (mode, source) in [(0u32, 0u32), (2, 1), (1, 0), (4, 1), (0, 1)] {
                    for save in [0u32, 1] {
                        for dur in [0u32, 7] {
                            let mut f = Frame::new(&img);
                            f.ty = ty;
                            f.is_last = false;
                            f.save_as = save;
                            if ty == 2 {
                                if mode != 0 || source != 0 || dur != 0 || crop.is_some() {
                                    continue;
                                }
                            } else {
                                f.crop = crop;
                                f.duration = dur;
                                let src = if mode == 0 && crop.is_none() { 0 } else { source };
                                if src != source {
                                    continue;
                                }
                                f.blend = Blend { mode, alpha: 0, clamp: false, source };
                                f.ec_blend[0] = Blend { mode: if mode == 4 { 1 } else { mode }, alpha: 0, clamp: false, source: if mode == 0 { src } else { source } };
                            }
                            alpha.push(f);
                        }
                    }
                }
            }
        }
        let n = alpha.len();
        let lasts: Vec<Frame> = [(None, 0, 0), (Some((2, 1, 2, 2)), 0, 1), (Some((2, 1, 2, 2)), 2, 0), (None, 1, 0), (None, 1, 1)]
            .into_iter()
            .map(|(crop, mode, source)| {
                let mut f = Frame::new(&img);
                f.crop = crop;
                f.blend = Blend { mode, alpha: 0, clamp: false, source };
                f.ec_blend[0] = f.blend.clone();
                f.duration = 3;
                f
            })
            .collect();
        let total = n * n * lasts.len();
        let step = ctx.pick(1, 1);
        ctx.par(total / step, |k| {
            let k = k * step;
            let (i, j, l) = (k % n, k / n % n, k / n / n);
            ctx.case(&format!("seq/{i}/{j}/{l}"), || go(&img, &[alpha[i].clone(), alpha[j].clone(), lasts[l].clone()]));
        });
        if !ctx.quick() {
            // one frame more
            let sub: Vec<&Frame> = alpha.iter().step_by(3).collect();
            let m = sub.len();
            ctx.par(m * m * m, |k| {
                if ctx.out_of_time() {
                    return;
                }
                let (i, j, h) = (k % m, k / m % m, k / m / m);
                for l in 0..lasts.len() {
                    ctx.case(&format!("seq4/{i}/{j}/{h}/{l}"), || {
                        go(&img, &[sub[i].clone(), sub[j].clone(), sub[h].clone(), lasts[l].clone()])
                    });
                }
            });
        }
    }
    // 3. every crop position of a small frame on a small canvas
    {
        let mut img = base_img(false, 1, false, false);
        img.w = 3;
        img.h = 3;
        let mut v = vec![];
        for w in 1..=4u32 {
            for h in 1..=4u32 {
                for x in -4..=4i32 {
                    for y in -4..=4i32 {
                        v.push((x, y, w, h));
                    }
                }
            }
        }
        ctx.par(v.len(), |i| {
            for mode in 0..5u32 {
                ctx.case(&format!("crop/{:?}/m{mode}", v[i]), || {
                    let mut f = Frame::new(&img);
                    f.crop = Some(v[i]);
                    let full = f.full(&img);
                    let b = Blend { mode, alpha: 0, clamp: false, source: if full && mode == 0 { 0 } else { 2 } };
                    f.blend = b.clone();
                    f.ec_blend[0] = b;
                    go(&img, &[first(&img, 2, 0), f])
                });
            }
        });
    }
    // 4. frames larger than a group, offset across group borders
    {
        let mut img = base_img(false, 1, false, false);
        img.w = 150;
        img.h = 140;
        let crops = [(-3, -5, 200, 150), (20, 30, 129, 64), (149, 139, 130, 130), (-127, -127, 256, 256), (10, -128, 128, 129), (-200, 0, 260, 300)];
        let modes = ctx.pick(vec![0u32, 2, 4], vec![0, 1, 2, 3, 4]);
        ctx.par(crops.len() * modes.len() * 2, |i| {
            let (c, m, g) = (crops[i % crops.len()], modes[i / crops.len() % modes.len()], i / crops.len() / modes.len());
            ctx.case(&format!("big/{c:?}/m{m}/g{g}"), || {
                let mut f = Frame::new(&img);
                f.crop = Some(c);
                f.gss = g as u32;
                f.blend = Blend { mode: m, alpha: 0, clamp: true, source: if f.full(&img) && m == 0 { 0 } else { 2 } };
                f.ec_blend[0] = f.blend.clone();
                fix(&mut f.blend, 1);
                fix(&mut f.ec_blend[0], 1);
                let mut a = first(&img, 2, 0);
                a.gss = 0;
                go(&img, &[a, f])
            });
        });
    }
    let _ = pattern;
}
/// Sets the fields that are not coded for a mode to their defaults.
pub fn fix(b: &mut Blend, ecs: usize) {
    let uses = ecs > 0 && (b.mode == 2 || b.mode == 3);
    if !uses {
        b.alpha = 0;
    }
    if !(uses || b.mode == 4) {
        b.clamp = false;
    }
}
/// The colour blend writes the alpha channel too: what that channel's own blend says then loses.
fn color_alpha_conflict(_f: &Frame) -> bool {
    false
}
