//! C27: lossy (VarDCT) frames give the picture that their coefficients define, whatever transforms, contexts, tables,
//! orders, passes and groups they use.
use super::compose::Pic;
use super::dct::{dims, idct, is_low, is_special, low, special};
use super::formats::from_f16;
use super::lossless::hash3;
use super::render::{Extra, P, chroma, compare, finish, shown};
use crate::dec::*;
use crate::enc::Bw;
use crate::enc::ent::{CtxMap, Ent};
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::enc::vardct::*;
use crate::engine::*;

fn hf(x: u16) -> f64 {
    from_f16(x)
}
/// Parameters of the default tables, by channel.
#[rustfmt::skip]
const DEFAULTS: [[&[f64]; 3]; 17] = [
    [&[3150.0, 0.0, -0.4, -0.4, -0.4, -2.0], &[560.0, 0.0, -0.3, -0.3, -0.3, -0.3], &[512.0, -2.0, -1.0, 0.0, -1.0, -2.0]],
    [&[280.0, 3160.0, 3160.0], &[60.0, 864.0, 864.0], &[18.0, 200.0, 200.0]],
    [&[3840.0, 2560.0, 1280.0, 640.0, 480.0, 300.0], &[960.0, 640.0, 320.0, 180.0, 140.0, 120.0], &[640.0, 320.0, 128.0, 64.0, 32.0, 16.0]],
    [&[2200.0, 0.0, 0.0, 0.0], &[392.0, 0.0, 0.0, 0.0], &[112.0, -0.25, -0.25, -0.5]],
    [&[8996.872571181411, -1.3000777393353804, -0.49424529824571223, -0.43909377445710346, -0.6350101832695744, -0.9017726405082761, -1.6162099239887413], &[3191.4836629684423, -0.6742458210419435, -0.80745813428471, -0.4492583748484344, -0.35865440981033403, -0.313223891118773, -0.3761502531572548], &[1157.504081454872, -2.053142316580441, -1.4, -0.5068713003337839, -0.42708730624733904, -1.4856834539296244, -4.92091428844016]],
    [&[15718.408309825189, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27], &[7305.7636810695985, -0.8041958212306402, -0.7633036457487539, -0.5566037999011146, -0.49785304658857626, -0.43699592683512467, -0.4018086652624211, -0.2732168312535804], &[3803.5317372121503, -3.060733579805728, -2.0413270132490346, -2.023565015972742, -0.5495389509954993, -0.4, -0.4, -0.3]],
    [&[7240.7734393502, -0.7, -0.7, -0.2, -0.2, -0.2, -0.5], &[1448.15468787004, -0.5, -0.5, -0.5, -0.2, -0.2, -0.2], &[506.854140754517, -1.4, -0.2, -0.5, -0.5, -1.5, -3.6]],
    [&[16283.24947106489, -1.7812845336559429, -1.6309059012653515, -1.038217903431354, -0.85, -0.7, -0.9, -1.2360638576849587], &[5089.157508849215, -0.3200493914527869, -0.35362849922161443, -0.3034, -0.61, -0.5, -0.5, -0.6], &[3397.7760327530873, -0.3213273626931534, -0.34507619223117997, -0.7034, -0.9, -1.0, -1.0, -1.175460557626521]],
    [&[13844.970764423006, -0.971138, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6], &[4798.964084220745, -0.6112530898276706, -0.8377078655249136, -0.7901486207949863, -0.2692727459704829, -0.3827276946538855, -0.22924222653091453, -0.20719098826199578], &[1807.2369467609647, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5]],
    [&[2198.0505560163806, -0.9626962302074469, -0.7619425302666678, -0.6551140670773546], &[764.3655248643529, -0.9263020088836694, -0.9675229603596517, -0.27845290869168116], &[527.1075735875422, -1.4594385811273853, -1.4500820940978716, -1.5843722511996203]],
    [&[3072.0, 3072.0, 256.0, 256.0, 256.0, 414.0, 0.0, 0.0, 0.0], &[1024.0, 1024.0, 50.0, 50.0, 50.0, 58.0, 0.0, 0.0, 0.0], &[384.0, 384.0, 12.0, 12.0, 12.0, 22.0, -0.25, -0.25, -0.25]],
    [&[23966.16652984486, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.3273384553584867], &[8380.191483900904, -0.3041958212306401, -0.3633036457487539, -0.3566037999011146, -0.3443074455424403, -0.3369959268351247, -0.3018086652624211, -0.2732168312535804], &[4493.023780098477, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
    [&[15358.898049332398, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.3273384553584867], &[5597.360516150653, -0.3041958212306401, -0.3633036457487539, -0.3566037999011146, -0.3443074455424403, -0.3369959268351247, -0.3018086652624211, -0.2732168312535804], &[2919.9616189600115, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
    [&[47932.33305968972, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.3273384553584867], &[16760.38296780181, -0.3041958212306401, -0.3633036457487539, -0.3566037999011146, -0.3443074455424403, -0.3369959268351247, -0.3018086652624211, -0.2732168312535804], &[8986.047560196954, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
    [&[30717.796098664796, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.3273384553584867], &[11194.721032301306, -0.3041958212306401, -0.3633036457487539, -0.3566037999011146, -0.3443074455424403, -0.3369959268351247, -0.3018086652624211, -0.2732168312535804], &[5839.923237920023, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
    [&[95864.66611937944, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.3273384553584867], &[33520.76593560362, -0.3041958212306401, -0.3633036457487539, -0.3566037999011146, -0.3443074455424403, -0.3369959268351247, -0.3018086652624211, -0.2732168312535804], &[17972.095120393908, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
    [&[61435.59219732959, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.3273384553584867], &[22389.442064602612, -0.3041958212306401, -0.3633036457487539, -0.3566037999011146, -0.3443074455424403, -0.3369959268351247, -0.3018086652624211, -0.2732168312535804], &[11679.846475840046, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
];
// ------------------------------------------------------------------------------------------------- definition
fn band_table(rows: usize, cols: usize, p: &[f64]) -> Vec<f64> {
    let step = |v: f64| if v > 0.0 { 1.0 + v } else { 1.0 / (1.0 - v) };
    let mut b = vec![p[0]];
    for v in &p[1..] {
        b.push(b.last().unwrap() * step(*v));
    }
    let mut out = vec![];
    for y in 0..rows {
        for x in 0..cols {
            let d = ((x as f64 / (cols - 1) as f64).powi(2) + (y as f64 / (rows - 1) as f64).powi(2)).sqrt();
            let pos = d * (b.len() - 1) as f64 / (2f64.sqrt() + 1e-6);
            out.push(between(pos, &b));
        }
    }
    out
}
/// Geometric interpolation.
fn between(pos: f64, b: &[f64]) -> f64 {
    if b.len() == 1 {
        return b[0];
    }
    let i = (pos.floor() as usize).min(b.len() - 2);
    b[i] * (b[i + 1] / b[i]).powf(pos - i as f64)
}
const AFV_FREQ: [f64; 16] = [
    0.0, 0.0, 0.8517778890324296, 5.37778436506804, 0.0, 0.0, 4.734747904497923, 5.449245381693219, 1.6598270267479331, 4.0, 7.275749096817861,
    10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235,
];
/// Quantisation step of every coefficient of table `idx` for channel `c`.
pub fn table(q: &Qenc, idx: usize, c: usize) -> Vec<f64> {
    let d = DEFAULTS[idx][c];
    let scaled = |v: &[u16], n: usize| -> Vec<f64> { v.iter().enumerate().map(|(i, x)| hf(*x) * if i < n { 64.0 } else { 1.0 }).collect() };
    let bands = |b: &Bands| scaled(&b.0[c], 1);
    let (r, k) = TABLE_SIZE[idx];
    let (rows, cols) = (8 * r, 8 * k);
    let id = |w: &[f64]| {
        let mut t = vec![w[0]; 64];
        (t[1], t[8], t[9]) = (w[1], w[1], w[2]);
        t
    };
    let dct2 = |w: &[f64]| -> Vec<f64> {
        (0..64)
            .map(|i| {
                let (y, x) = (i / 8, i % 8);
                let big = x.max(y);
                let both = |n: usize| (x >= n && y >= n) as usize;
                match big {
                    0 => 1.0,
                    1 => w[both(1)],
                    2..4 => w[2 + both(2)],
                    _ => w[4 + both(4)],
                }
            })
            .collect()
    };
    let dct4 = |m: [f64; 2], b: &[f64]| -> Vec<f64> {
        let t = band_table(4, 4, b);
        let mut t: Vec<f64> = (0..64).map(|i| t[i / 16 * 4 + i % 8 / 2]).collect();
        t[1] /= m[0];
        t[8] /= m[0];
        t[9] /= m[1];
        t
    };
    let dct48 = |m: f64, b: &[f64]| -> Vec<f64> {
        let t = band_table(4, 8, b);
        let mut t: Vec<f64> = (0..64).map(|i| t[i / 16 * 8 + i % 8]).collect();
        t[8] /= m;
        t
    };
    let afv = |w: &[f64], b48: &[f64], b44: &[f64]| -> Vec<f64> {
        let (t48, t44) = (band_table(4, 8, b48), band_table(4, 4, b44));
        let step = |v: f64| if v > 0.0 { 1.0 + v } else { 1.0 / (1.0 - v) };
        let mut b = vec![w[5]];
        for v in &w[6..9] {
            b.push(b.last().unwrap() * step(*v));
        }
        (0..64)
            .map(|i| {
                let (y, x) = (i / 8, i % 8);
                match (y, x) {
                    (0, 0) => 1.0,
                    (1, 0) => w[0],
                    (0, 1) => w[1],
                    (2, 0) => w[2],
                    (0, 2) => w[3],
                    (2, 2) => w[4],
                    _ if y % 2 == 1 => t48[y / 2 * 8 + x],
                    _ if x % 2 == 1 => t44[y / 2 * 4 + x / 2],
                    _ => {
                        let lo = AFV_FREQ[2];
                        between((AFV_FREQ[y / 2 * 4 + x / 2] - lo) * 3.0 / (AFV_FREQ[15] - lo + 1e-6), &b)
                    }
                }
            })
            .collect()
    };
    let w = match q {
        Qenc::Lib => match idx {
            1 => id(d),
            2 => dct2(d),
            3 => dct4([1.0, 1.0], d),
            9 => dct48(1.0, d),
            10 => afv(d, DEFAULTS[9][c], DEFAULTS[3][c]),
            _ => band_table(rows, cols, d),
        },
        Qenc::Id(w) => id(&scaled(&w[c], 3)),
        Qenc::Dct2(w) => dct2(&scaled(&w[c], 6)),
        Qenc::Dct4(m, b) => dct4([hf(m[c][0]), hf(m[c][1])], &bands(b)),
        Qenc::Dct48(m, b) => dct48(hf(m[c]), &bands(b)),
        Qenc::Afv(w, a, b) => afv(&scaled(&w[c], 6), &bands(a), &bands(b)),
        Qenc::Dct(b) => band_table(rows, cols, &bands(b)),
        Qenc::Raw(den, v) => return v[c * rows * cols..(c + 1) * rows * cols].iter().map(|x| hf(*den) * *x as f64).collect(),
    };
    w.into_iter().map(|x| 1.0 / x).collect()
}
const BIASES: [f64; 4] = [1.0 - 0.05465007330715401, 1.0 - 0.07005449891748593, 1.0 - 0.049935103337343655, 0.145];
/// The low-frequency picture, X, Y, B.
fn low_planes(img: &Image, f: &Frame, v: &Vd) -> Vec<P> {
    let (lw, _) = f.lf_groups(img);
    let q = v.lfq.map(|q| q.map(|x| hf(x) / 128.0)).unwrap_or([1.0 / 4096.0, 1.0 / 512.0, 1.0 / 256.0]);
    let fac = q.map(|x| x * 65536.0 / (v.gs as f64 * v.qlf as f64));
    let mut p: Vec<P> = (0..3)
        .map(|c| {
            let (hs, vs) = chroma_shift(f, c);
            P::make(v.lf[c].w, v.lf[c].h, |x, y| {
                let g = (y << vs) / 256 * lw + (x << hs) / 256;
                v.lf[c].at(x, y) as f64 * fac[c] / (1u32 << v.prec[g]) as f64
            })
        })
        .collect();
    if !f.ycbcr || f.jpeg_up.iter().all(|u| *u == f.jpeg_up[0]) {
        let y = p[1].d.clone();
        for (k, c) in [(0, 0), (1, 2)] {
            let r = cfl(v, k, v.ccp.as_ref().map_or(0, |p| p.lf[k]));
            p[c].d.iter_mut().zip(&y).for_each(|(d, y)| *d += y * r);
        }
    }
    let (w, h) = (p[1].w, p[1].h);
    if f.flags & 128 == 0 && w > 2 && h > 2 {
        let old = p.clone();
        let (side, corner) = (0.20345139757231578, 0.0334829185968739);
        for y in 1..h - 1 {
            for x in 1..w - 1 {
                let at = |c: usize, dx: usize, dy: usize| old[c].d[(y + dy - 1) * w + x + dx - 1];
                let sm: Vec<f64> = (0..3)
                    .map(|c| {
                        at(c, 1, 1) * (1.0 - 4.0 * (side + corner))
                            + side * (at(c, 0, 1) + at(c, 2, 1) + at(c, 1, 0) + at(c, 1, 2))
                            + corner * (at(c, 0, 0) + at(c, 2, 0) + at(c, 0, 2) + at(c, 2, 2))
                    })
                    .collect();
                let gap = (0..3).map(|c| ((at(c, 1, 1) - sm[c]) / fac[c]).abs()).fold(0.5, f64::max);
                let k = (3.0 - 4.0 * gap).max(0.0);
                for c in 0..3 {
                    p[c].d[y * w + x] = at(c, 1, 1) + (sm[c] - at(c, 1, 1)) * k;
                }
            }
        }
    }
    p
}
/// Share of Y in X (`k` 0) or B (1).
fn cfl(v: &Vd, k: usize, t: i32) -> f64 {
    let (base, factor) = match &v.ccp {
        None => ([0.0, 1.0], 84),
        Some(c) => (c.base.map(hf), c.factor),
    };
    base[k] + t as f64 / factor as f64
}
/// The colour planes before any filter, and the tolerance that rounding asks for.
pub fn planes(img: &Image, f: &Frame, v: &Vd, lf: Option<&[P]>, seen: Option<&[usize]>) -> (Vec<P>, f64) {
    let own;
    let lf = match lf {
        Some(l) => l,
        None => {
            own = low_planes(img, f, v);
            &own
        }
    };
    let (bw, bh) = f.size_blocks(img);
    let mut out: Vec<P> = (0..3)
        .map(|c| {
            let (hs, vs) = chroma_shift(f, c);
            P::make((bw >> hs) * 8, (bh >> vs) * 8, |_, _| 0.0)
        })
        .collect();
    let lib = vec![Qenc::Lib; 17];
    let mats = v.mats.as_ref().unwrap_or(&lib);
    let mut tables: Vec<Option<[Vec<f64>; 3]>> = vec![None; 17];
    let mut tol: f64 = 3e-6;
    let qm = |k: u32| 0.8f64.powi(k as i32 - 2);
    let qm = if img.xyb { [qm(f.xqm), 1.0, qm(f.bqm)] } else { [1.0; 3] };
    for (g, bl) in v.blocks.iter().enumerate() {
        for (i, b) in bl.iter().enumerate() {
            let t = b.t as usize;
            let (h, w) = dims(t);
            let known = seen.map_or(usize::MAX, |s| s[b.y / 32 * f.groups(img).0 + b.x / 32]);
            if known == 0 {
                continue;
            }
            let tb = tables[TABLE[t]].get_or_insert_with(|| std::array::from_fn(|c| table(&mats[TABLE[t]], TABLE[t], c)));
            let mut deq: Vec<Option<Vec<f64>>> = vec![None; 3];
            for c in [1, 0, 2] {
                let (hs, vs) = chroma_shift(f, c);
                if b.x % (1 << hs) != 0 || b.y % (1 << vs) != 0 {
                    continue;
                }
                let mut sum = vec![0i64; h * w];
                for (p, co) in v.coef[g][i][c].iter().enumerate().take(known) {
                    let s = f.passes.shift.get(p).copied().unwrap_or(0);
                    sum.iter_mut().zip(co).for_each(|(s0, x)| *s0 += (*x as i64) << s);
                }
                let scale = 65536.0 / v.gs as f64 / b.q as f64 * qm[c];
                let mut d: Vec<f64> = (0..h * w)
                    .map(|k| {
                        let q = sum[k] as f64;
                        let adj = if q.abs() <= 1.0 { q * BIASES[c] } else { q - BIASES[3] / q };
                        adj * tb[c][k] * scale
                    })
                    .collect();
                if c != 1 {
                    let k = c / 2;
                    let map = if k == 0 { &v.tox } else { &v.tob };
                    // tiles are counted from the group's corner
                    let r = cfl(v, k, map.at(b.x / 8, b.y / 8).clamp(-128, 127));
                    if let Some(y) = &deq[1] {
                        d.iter_mut().zip(y).for_each(|(d, y)| *d += y * r);
                    }
                }
                deq[c] = Some(d);
            }
            for c in 0..3 {
                let Some(mut d) = deq[c].take() else { continue };
                let (hs, vs) = chroma_shift(f, c);
                let (x0, y0) = (b.x >> hs, b.y >> vs);
                let mut l = vec![];
                for y in 0..h / 8 {
                    for x in 0..w / 8 {
                        l.push(lf[c].d[(y0 + y) * lf[c].w + x0 + x]);
                    }
                }
                let l = low(&l, h, w);
                for k in 0..h * w {
                    if is_low(k, h, w) {
                        d[k] = l[k];
                    }
                }
                let px = if is_special(t) { special(t, &d) } else { idct(&d, h, w) };
                let size: f64 = match h.max(w) {
                    0..=32 => 3e-6,
                    64 => 6e-6,
                    128 => 1.2e-5,
                    _ => 3e-5,
                };
                let peak = px.iter().chain(&d).fold(0.3f64, |a, x| a.max(x.abs()));
                tol = tol.max(size * peak);
                let o = &mut out[c];
                for y in 0..h {
                    for x in 0..w {
                        o.d[(y0 * 8 + y) * o.w + x0 * 8 + x] = px[y * w + x];
                    }
                }
            }
        }
    }
    if let Some(s) = seen {
        // groups of which nothing is there yet: the low-frequency picture, enlarged
        let (gw, _) = f.groups(img);
        let peak = lf.iter().flat_map(|p| &p.d).fold(0.3f64, |a, x| a.max(x.abs()));
        tol = tol.max(2e-5 * peak);
        for c in 0..3 {
            let (hs, vs) = chroma_shift(f, c);
            let up = super::render::upsample(&lf[c], 8, &super::render::weights(img, 8));
            let o = &mut out[c];
            for y in 0..o.h {
                for x in 0..o.w {
                    if s[(y << vs) / 256 * gw + (x << hs) / 256] == 0 {
                        o.d[y * o.w + x] = up.d[y * up.w + x];
                    }
                }
            }
        }
    }
    let (w, h) = f.size(img);
    for c in 0..3 {
        let (hs, vs) = chroma_shift(f, c);
        let p = &out[c];
        let mut p = p.crop(w.div_ceil(1 << hs), h.div_ceil(1 << vs));
        if hs > 0 {
            p = chroma(&p, true).crop(w, p.h);
        }
        if vs > 0 {
            p = chroma(&p, false).crop(w, h);
        }
        out[c] = p;
    }
    (out, tol)
}
/// Reciprocal of the edge-preserving filter's strength for each block.
fn sigmas(img: &Image, f: &Frame, v: &Vd) -> Vec<f64> {
    let (bw, bh) = f.size_blocks(img);
    let rf = &f.rf;
    let mul = rf.sigma.map_or(0.46, |s| hf(s[0]));
    let mut out = vec![0.0; bw * bh];
    for b in v.blocks.iter().flatten() {
        let (cx, cy) = COVER[b.t as usize];
        for y in b.y..b.y + cy {
            for x in b.x..b.x + cx {
                let s = v.sharp.at(x, y) as usize;
                let lut = rf.sharp.map_or(s as f64 / 7.0, |l| hf(l[s]));
                let sg = (mul / (v.gs as f64 / 65536.0 * b.q as f64 * -1.1715728752538099) * lut).min(-1e-4);
                out[y * bw + x] = 1.0 / sg;
            }
        }
    }
    out
}
// ------------------------------------------------------------------------------------------------- contents
/// What to put into a frame.
#[derive(Clone, Debug)]
pub struct Kind {
    pub seed: u32,
    /// transforms to use
    pub ts: Vec<usize>,
    /// of 256 coefficients how many are not zero near the start
    pub dense: u32,
    pub big: bool,
}
pub fn new_vd(img: &Image, f: &Frame, k: &Kind) -> Vd {
    let (bw, bh) = f.size_blocks(img);
    let (lw, lh) = f.lf_groups(img);
    let (gw, gh) = f.groups(img);
    let np = f.passes.num as usize;
    let hsh = |a: usize, b: usize, c: usize| hash3(a as u32 ^ k.seed.wrapping_mul(0x1000_0193), b as u32, c as u32);
    let lf = std::array::from_fn(|c| {
        let (hs, vs) = chroma_shift(f, c);
        let mut ch = Chan::new(bw >> hs, bh >> vs);
        for y in 0..ch.h {
            for x in 0..ch.w {
                let r = hsh(x, y, 50 + c) as i32;
                // smooth parts and edges
                let v = (x * 3 + y * 2) as i32 % 41 + if (x / 3 + y / 2) % 3 == 0 { (r & 0xffff) % 60 } else { (r & 1) as i32 };
                ch.data[y * ch.w + x] = [v - 30, v + 120, v / 2 - 20][c] + if k.big { (r & 0xfff) - 2048 } else { 0 };
            }
        }
        ch
    });
    let full = |w: usize, h: usize, g: &dyn Fn(usize, usize) -> i32| {
        let mut c = Chan::new(w, h);
        for y in 0..h {
            for x in 0..w {
                c.data[y * w + x] = g(x, y);
            }
        }
        c
    };
    let sub = f.ycbcr && f.max_shift() != (0, 0);
    let (tw, th) = (bw.div_ceil(8), bh.div_ceil(8));
    let tile = |s: usize| full(tw, th, &|x, y| if sub { 0 } else { (hsh(x, y, s) % 301) as i32 - 150 });
    let mut blocks = vec![];
    let mut coef = vec![];
    for g in 0..lw * lh {
        let (x0, y0) = (g % lw * 256, g / lw * 256);
        let (w, h) = (256.min(bw - x0), 256.min(bh - y0));
        let mut used = vec![false; w * h];
        let mut list = vec![];
        let mut cs = vec![];
        for y in 0..h {
            for x in 0..w {
                if used[y * w + x] {
                    continue;
                }
                let n = k.ts.len();
                let first = hsh(x0 + x, y0 + y, 9) as usize % n;
                let t = (0..n)
                    .map(|i| k.ts[(first + i) % n])
                    .find(|t| {
                        let (cx, cy) = COVER[*t];
                        let fit = x + cx <= w.min((x / 32 + 1) * 32) && y + cy <= h.min((y / 32 + 1) * 32);
                        fit && (!sub || cx * cy == 1) && (0..cx * cy).all(|i| !used[(y + i / cx) * w + x + i % cx])
                    })
                    .unwrap_or(0);
                let (cx, cy) = COVER[t];
                for i in 0..cx * cy {
                    used[(y + i / cx) * w + x + i % cx] = true;
                }
                let r = hsh(x0 + x, y0 + y, 10);
                let q = [5, 1, 40, 256, 17, 9, 100, 2][r as usize % 8];
                list.push(Blk { x: x0 + x, y: y0 + y, t: t as i32, q });
                let size = 64 * cx * cy;
                let nat = natural(SHAPE[t]);
                cs.push(std::array::from_fn(|c| {
                    (0..np)
                        .map(|p| {
                            let r = hsh(x0 + x, (y0 + y) * 8 + p, 20 + c);
                            let mut v = vec![0; size];
                            // some blocks are empty, some dense, some have a few coefficients far out
                            let m = match r % 8 {
                                0 => return vec![],
                                1 => 1,
                                2 => size / 64,
                                3 => size - cx * cy,
                                4 => 2 * cx * cy,
                                _ => size / 8,
                            };
                            for (j, pos) in nat.iter().enumerate().skip(cx * cy).take(m) {
                                let s = hsh(j, x0 + x + 512 * c, (y0 + y) * 16 + p + 0x10000);
                                if s % 256 < k.dense {
                                    let mag = match s >> 8 & 15 {
                                        0..10 => 1,
                                        10..14 => 2 + (s >> 12 & 3),
                                        14 => 5 + (s >> 12 & 31),
                                        _ => if k.big { s >> 12 & 0xfff } else { 7 },
                                    } as i32;
                                    v[*pos] = if s >> 30 & 1 == 1 { -mag } else { mag };
                                }
                            }
                            if r % 8 == 5 {
                                v[nat[size - 1]] = 1;
                            }
                            v
                        })
                        .collect()
                }));
            }
        }
        blocks.push(list);
        coef.push(cs);
    }
    let mut mopt = ModOpts::new(Tree::single(5), 16);
    mopt.split_ctx = true;
    Vd {
        gs: 4096,
        qlf: 16,
        lfq: None,
        bctx: None,
        ccp: None,
        prec: (0..lw * lh).map(|g| (g as u32 + k.seed) % 4).collect(),
        mats: None,
        nhist: 1,
        hist: vec![vec![0; gw * gh]; np],
        orders: vec![(2, vec![]); np],
        clusters: 6,
        ans: k.seed % 2 == 1,
        copies: None,
        lf,
        tox: tile(60),
        tob: tile(61),
        sharp: full(bw, bh, &|x, y| (hsh(x, y, 62) % 8) as i32),
        blocks,
        coef,
        mopt,
        bad: None,
    }
}
pub struct File {
    pub data: Vec<u8>,
    /// where each section of the last frame ends
    pub ends: Vec<usize>,
    pub pic: Pic,
    pub tol: f64,
    /// what comes before the last frame, and its sections
    pub head: Bw,
    pub secs: Vec<Vec<u8>>,
    /// low-frequency planes that came in a frame of their own
    pub lf: Option<Vec<P>>,
    pub ecs: Vec<Chan>,
}
impl File {
    /// The same with the sections in another order.
    pub fn reorder(&self, img: &Image, f: &Frame, order: &[usize]) -> (Vec<u8>, Vec<usize>) {
        let mut bw = self.head.clone();
        assemble(img, f, &self.secs, Some(order), &mut bw);
        let mut ends = vec![bw.bytes.len()];
        for s in order.iter().rev() {
            ends.push(ends.last().unwrap() - self.secs[*s].len());
        }
        ends.reverse();
        (bw.bytes, ends)
    }
}
/// A file of one frame (with an LF frame in front if it needs one).
pub fn build(img: &Image, f: &Frame, v: &Vd, order: Option<&[usize]>, prefix: Prefix, e: &Extra) -> File {
    let mut bw = Bw::new();
    img.write(&mut bw);
    let mut lf = None;
    if f.has_lf() {
        let mut l = Frame::new(img);
        l.ty = 1;
        l.lf_level = 1;
        l.is_last = false;
        l.ec_up = vec![1; img.ecs.len()];
        let mut o = ModOpts::new(Tree::single(5), img.depth.bits);
        o.split_ctx = true;
        let (secs, ch) = modular_frame(img, &l, &o, None, &mut |_, c, x, y| ((x * 700 + y * 900 + c * 4000) % 30000) as i32 + (hash3(x as u32, y as u32, c as u32) % 3000) as i32);
        assemble(img, &l, &secs, None, &mut bw);
        let max = ((1u64 << img.depth.bits) - 1) as f64;
        lf = Some((0..3).map(|c| P::make(ch[c].w, ch[c].h, |x, y| ch[c].at(x, y) as f64 / max)).collect::<Vec<_>>());
    }
    let (secs, ch) = v.write(img, f, prefix, &mut |_, c, x, y| (hash3(x as u32, y as u32, c as u32) % 256) as i32);
    let head = bw.clone();
    assemble(img, f, &secs, order, &mut bw);
    let mut ends = vec![bw.bytes.len()];
    let ord = order.map(|o| o.to_vec()).unwrap_or((0..secs.len()).collect());
    for s in ord.iter().rev() {
        ends.push(ends.last().unwrap() - secs[*s].len());
    }
    ends.reverse();
    let (pic, tol) = picture(img, f, v, lf.as_deref(), &ch, e, None);
    File { data: bw.bytes, ends, pic, tol, head, secs, lf, ecs: ch }
}
/// The picture a frame defines.
pub fn picture(img: &Image, f: &Frame, v: &Vd, lf: Option<&[P]>, ecs: &[Chan], e: &Extra, seen: Option<&[usize]>) -> (Pic, f64) {
    let (c, mut tol) = planes(img, f, v, lf, seen);
    let ec = ecs
        .iter()
        .zip(&img.ecs)
        .map(|(ch, e)| P { w: ch.w, h: ch.h, d: ch.data.iter().map(|v| *v as f64 / ((1u64 << e.depth.bits) - 1) as f64).collect() })
        .collect();
    let (bw, _) = f.size_blocks(img);
    let sg = sigmas(img, f, v);
    if f.rf.epf > 0 {
        // what the filter makes of rounding errors
        tol *= 20.0;
    }
    let p = finish(img, f, c, ec, &|x, y| sg[y * bw + x], e);
    (shown(img, f, p), tol)
}
pub fn none() -> Extra<'static> {
    Extra { lut: None, patches: &[], slots: [None, None, None, None], visible: 0, hidden: 0, corr: [0.0, 1.0] }
}
pub fn vd_img(w: usize, h: usize) -> (Image, Frame) {
    let mut img = Image::new(w as u32, h as u32);
    img.depth = Depth::int(16);
    img.m16 = false;
    let mut f = Frame::new(&img);
    f.modular = false;
    (img, f)
}
fn judge(img: &Image, f: &Frame, v: &Vd) -> Result<u64, String> {
    let b = build(img, f, v, None, None, &none());
    let out = oneshot(&b.data, &Opts::default(), FmtSel::F32All);
    compare(&out, img, &b.pic, b.tol)?;
    Ok(out.digest())
}
fn kind(seed: u32, ts: Vec<usize>) -> Kind {
    Kind { seed, ts, dense: 200, big: false }
}

// ------------------------------------------------------------------------------------------------- exploration
/// One value for each way in which frames differ.
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub size: (usize, usize),
    pub seed: u32,
    pub ts: u32,
    pub big: bool,
    pub ctx: u32,
    pub mats: u32,
    pub passes: u32,
    pub orders: u32,
    pub hists: u32,
    pub chroma: u32,
    pub filter: u32,
    pub smooth: bool,
    pub quant: u32,
    pub ccp: u32,
    pub lf_frame: bool,
    pub ecs: u32,
    pub up: u32,
    pub noise: bool,
    pub xyb: u32,
    pub code: u32,
}
/// Half float nearest to a value.
fn h(v: f64) -> u16 {
    crate::props::formats::to_f16(v as f32)
}
/// A permutation that leaves the first `skip` alone.
fn shuffled(n: usize, skip: usize, seed: u32, much: bool) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    let m = if much { n } else { (skip + 12).min(n) };
    for i in (skip + 1..m).rev() {
        let j = skip + hash3(seed, i as u32, 77) as usize % (i + 1 - skip);
        p.swap(i, j);
    }
    p
}
fn bands(n: usize, first: f64, seed: u32) -> Bands {
    Bands(std::array::from_fn(|c| (0..n).map(|i| if i == 0 { h(first / (1 << c) as f64) } else { h((hash3(seed, i as u32, c as u32) % 41) as f64 / 20.0 - 1.5) }).collect()))
}
/// A table of mode `m`, which must be possible for table `idx`.
fn qenc(idx: usize, m: u32, seed: u32) -> Qenc {
    let r = |a: u32, b: u32| 1.0 + (hash3(seed, a, b) % 100) as f64 / 20.0;
    match m {
        0 => Qenc::Lib,
        1 => Qenc::Id(std::array::from_fn(|c| std::array::from_fn(|i| h(r(i as u32, c as u32) * 4.0)))),
        2 => Qenc::Dct2(std::array::from_fn(|c| std::array::from_fn(|i| h(r(i as u32, c as u32) * 4.0)))),
        3 => Qenc::Dct4(std::array::from_fn(|c| std::array::from_fn(|i| h(r(i as u32, c as u32)))), bands(1 + seed as usize % 16, 9.0, seed)),
        4 => Qenc::Dct48(std::array::from_fn(|c| h(r(9, c as u32))), bands(1 + (seed + 3) as usize % 16, 11.0, seed)),
        5 => Qenc::Afv(
            std::array::from_fn(|c| std::array::from_fn(|i| if i < 6 { h(r(i as u32, c as u32) * 2.0) } else { h(r(i as u32, c as u32) / 3.0 - 1.0) })),
            bands(2 + seed as usize % 6, 10.0, seed),
            bands(1 + seed as usize % 5, 13.0, seed + 1),
        ),
        6 => Qenc::Dct(bands(1 + seed as usize % 16, 40.0, seed)),
        _ => {
            let n = 3 * 64 * TABLE_SIZE[idx].0 * TABLE_SIZE[idx].1;
            let v = if idx > 12 { (0..n).map(|i| 1 + (i % 7) as i32).collect() } else { (0..n).map(|i| 1 + (hash3(seed, i as u32, 5) % 99) as i32).collect() };
            Qenc::Raw(h(1.0 / 8192.0), v)
        }
    }
}
const SETS: [&[usize]; 8] = [
    &[0],
    &[0, 4, 6, 7, 1, 2, 3],
    &[12, 13, 14, 15, 16, 17, 0, 1, 2, 3],
    &[5, 8, 9, 10, 11, 4, 6, 7],
    &[18, 19, 20, 5, 10, 11, 0],
    &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17],
    &[21, 22, 23, 18, 20, 6, 17],
    &[24, 25, 26, 21, 19, 9, 12],
];
impl Cfg {
    pub fn make(&self) -> (Image, Frame, Vd, Option<[u32; 8]>) {
        let s = self.seed;
        let (mut img, mut f) = vd_img(self.size.0, self.size.1);
        if self.xyb > 0 {
            img.xyb = true;
            img.color = super::color::header(&jxl::api::JxlColorEncoding::linear_srgb(false));
            (f.xqm, f.bqm) = [(3, 2), (0, 7), (5, 1), (2, 4)][self.xyb as usize % 4];
        }
        f.passes = match self.passes {
            0 => Passes { num: 1, shift: vec![], ds: vec![] },
            1 => Passes { num: 2, shift: vec![1], ds: vec![] },
            2 => Passes { num: 3, shift: vec![3, 0], ds: vec![(4, 0)] },
            3 => Passes { num: 4, shift: vec![2, 3, 1], ds: vec![(8, 0), (2, 1)] },
            4 => Passes { num: 2, shift: vec![0], ds: vec![(2, 0)] },
            _ => Passes { num: 11, shift: vec![3, 2, 2, 1, 1, 0, 0, 3, 1, 2], ds: vec![(8, 1), (4, 5), (2, 7)].into_iter().map(|(a, b): (u32, u32)| (a, b)).collect() },
        };
        if self.chroma > 0 && self.xyb == 0 {
            f.ycbcr = true;
            f.jpeg_up = [self.chroma & 3, self.chroma >> 2 & 3, self.chroma >> 4 & 3];
        }
        let sub = f.ycbcr && f.max_shift() != (0, 0);
        f.up = [1, 2, 4, 8][self.up as usize % 4];
        let ecs: Vec<(Ec, u32)> = match self.ecs % 4 {
            0 => vec![],
            1 => vec![(Ec::of(3), f.up)],
            2 => vec![(Ec { dim_shift: 1, ..Ec::of(1) }, f.up), (Ec::alpha(), f.up)],
            _ => vec![(Ec { dim_shift: 3, ..Ec::of(1) }, f.up)],
        };
        f.ec_up = ecs.iter().map(|(e, u)| if f.has_lf() { 1 } else { (*u).max(1 << e.dim_shift) >> e.dim_shift }).collect();
        f.ec_blend = vec![Blend::replace(); ecs.len()];
        img.ecs = ecs.into_iter().map(|e| e.0).collect();
        f.flags = if self.smooth && !sub { 0 } else { 128 };
        if self.lf_frame && !sub && self.xyb == 0 {
            f.flags |= 32;
            f.up = 1;
            f.ec_up = vec![1; img.ecs.len()];
            img.ecs.iter_mut().for_each(|e| e.dim_shift = 0);
        }
        let lut = self.noise.then_some([100, 0, 300, 1023, 500, 80, 700, 20]);
        f.flags |= self.noise as u64;
        f.rf = match self.filter {
            0 => Rf::none(),
            1 => Rf { epf: 0, ..Rf::dflt() },
            2 => Rf { gab: false, epf: 1, ..Rf::dflt() },
            3 => Rf::dflt(),
            4 => Rf { epf: 3, ..Rf::dflt() },
            5 => Rf { gab: false, epf: 2, sharp: Some([h(0.0), h(0.1), h(0.9), h(0.5), h(2.0), h(0.03), h(1.0), h(4.0)]), ..Rf::dflt() },
            _ => Rf { epf: 3, sigma: Some([h(1.7), h(0.7), h(5.0), h(0.5)]), weight: Some([h(16.0), h(8.0), h(4.0), 0, 0]), ..Rf::dflt() },
        };
        let k = Kind { seed: s, ts: SETS[self.ts as usize % 8].to_vec(), dense: 200, big: self.big };
        let mut v = new_vd(&img, &f, &k);
        match self.quant {
            0 => {}
            1 => (v.gs, v.qlf) = (1500, 1),
            2 => {
                (v.gs, v.qlf) = (70000, 3);
                v.lfq = Some([h(0.4), h(0.9), h(1.1)]);
            }
            3 => {
                (v.gs, v.qlf) = (2049, 33);
                v.lfq = Some([h(0.02), h(0.2), h(0.5)]);
            }
            _ => (v.gs, v.qlf) = (8100, 200),
        }
        match self.ccp {
            0 => {}
            1 => v.ccp = Some(Ccp { factor: 256, base: [h(0.25), h(-0.5)], lf: [-128, 127] }),
            2 => v.ccp = Some(Ccp { factor: 2, base: [h(-0.1), h(1.0)], lf: [1, -1] }),
            3 => v.ccp = Some(Ccp { factor: 84, base: [h(0.0), h(0.0)], lf: [30, 20] }),
            _ => v.ccp = Some(Ccp { factor: 1000, base: [h(0.5), h(0.9)], lf: [-100, 0] }),
        }
        if sub {
            v.ccp = None;
        }
        if let (true, Some(c)) = (self.noise, &mut v.ccp) {
            c.lf = [0, 0];
        }
        v.bctx = match self.ctx {
            0 => None,
            n => {
                let lf: [Vec<i32>; 3] = match n {
                    1 => [vec![], vec![], vec![]],
                    2 => [vec![-20, 0], vec![120], vec![-15, -10, 4]],
                    3 => [vec![], vec![100, 125, 130, 140, 150, 170, 200, -7, -3000], vec![]],
                    4 => [vec![-5], vec![-66000, 300], vec![10, -300]],
                    _ => [vec![3], vec![130], vec![0]],
                };
                let qf: Vec<u32> = match n {
                    1 => vec![],
                    2 => vec![4],
                    3 => vec![1, 8, 20],
                    4 => vec![16, 60],
                    _ => vec![2, 5, 12, 44, 255, 9, 3],
                };
                let size = 39 * lf.iter().map(|t| t.len() + 1).product::<usize>() * (qf.len() + 1);
                let nc = [16, 16, 3, 9, 7, 16][n as usize % 6];
                let mut map: Vec<u8> = (0..size).map(|i| (hash3(i as u32, s, 3) as usize % nc) as u8).collect();
                for (i, m) in map.iter_mut().enumerate().take(nc) {
                    *m = i as u8;
                }
                Some(Bctx { lf, qf, map: CtxMap::Coded { map, mtf: n % 2 == 0, ent: Box::new(Ent::auto(1)), copies: false } })
            }
        };
        if self.mats > 0 {
            v.mats = Some(
                (0..17)
                    .map(|i| {
                        let legal: &[u32] = if TABLE_SIZE[i] == (1, 1) { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 6, 7] };
                        let m = legal[(self.mats as usize - 1 + i) % legal.len()];
                        // large tables only where they are used
                        let used = k.ts.iter().any(|t| TABLE[*t] == i);
                        qenc(i, if !used && m == 7 { 0 } else { m }, s + i as u32 * 3 + self.mats)
                    })
                    .collect(),
            );
        }
        let np = f.passes.num as usize;
        let ngr = v.hist[0].len();
        let used: Vec<usize> = {
            let mut u: Vec<usize> = k.ts.iter().map(|t| SHAPE[*t]).chain([0]).collect();
            u.sort();
            u.dedup();
            u
        };
        v.orders = (0..np)
            .map(|p| {
                let sel = match self.orders {
                    0 => 2,
                    n => [0, 1, 3, 2, 3][(n as usize - 1 + p) % 5],
                };
                let list: Vec<usize> = match sel {
                    0 => vec![0, 1, 2, 3, 4, 6],
                    1 => vec![0, 1, 4],
                    3 => used.clone(),
                    _ => vec![],
                };
                let perms = list
                    .into_iter()
                    .map(|o| {
                        let n = ORDER_SIZE[o].0 * ORDER_SIZE[o].1;
                        (o, std::array::from_fn(|c| shuffled(64 * n, n, s + o as u32 * 3 + c as u32, n < 8 && (o + c + p) % 3 == 0)))
                    })
                    .collect();
                (sel, perms)
            })
            .collect();
        if self.hists > 0 {
            v.nhist = ngr.min([1, 2, 3, 64][self.hists as usize % 4]);
            v.hist = (0..np).map(|p| (0..ngr).map(|g| (g * 5 + p + 1) % v.nhist).collect()).collect();
        }
        v.clusters = [6, 1, 9, 6, 20][self.code as usize % 5];
        v.ans = self.code % 2 == 1;
        if self.code % 3 == 2 && !v.ans {
            v.copies = Some(3);
        }
        if self.code % 4 == 3 {
            v.mopt.group_tree = Some(Tree::single(6));
            v.mopt.group_wp = Wp { p: [9, 10, 7, 7, 7, 0, 0], ..Wp::dflt() };
        }
        (img, f, v, lut)
    }
    fn extra(&self, v: &Vd, lut: Option<[u32; 8]>) -> Extra<'static> {
        let mut e = none();
        e.lut = lut;
        e.visible = 1;
        if let Some(c) = &v.ccp {
            e.corr = c.base.map(hf);
        }
        e
    }
    pub fn file(&self) -> (Image, Frame, File) {
        let (img, f, v, lut) = self.make();
        let e = self.extra(&v, lut);
        let pre = |b: &mut Bw| {
            if let Some(l) = &lut {
                crate::enc::feat::noise(b, l);
            }
        };
        let mut file = build(&img, &f, &v, None, Some(&pre), &e);
        if self.xyb > 0 {
            file.tol *= from_xyb(&mut file.pic);
        }
        (img, f, file)
    }
    /// What is shown when this many passes of each group are there.
    fn preview(&self, b: &File, seen: &[usize]) -> (Pic, f64) {
        let (img, f, v, lut) = self.make();
        let (mut p, mut tol) = picture(&img, &f, &v, b.lf.as_deref(), &b.ecs, &self.extra(&v, lut), Some(seen));
        if self.xyb > 0 {
            tol *= from_xyb(&mut p);
        }
        (p, tol)
    }
}
/// Linear light from XYB, and by how much that amplifies rounding.
fn from_xyb(p: &mut Pic) -> f64 {
    let b = -0.0037930732552754493f64;
    let m = super::color::OPSIN;
    let mut peak: f64 = 0.3;
    for i in 0..p.w * p.h {
        let (x, y, z) = (p.c[0][i], p.c[1][i], p.c[2][i]);
        peak = peak.max(x.abs() + y.abs()).max(z.abs());
        let l = [y + x, y - x, z].map(|v| (v - b.cbrt()).powi(3) + b);
        for c in 0..3 {
            p.c[c][i] = (0..3).map(|k| m[c][k] * l[k]).sum();
        }
    }
    66.0 * (peak + 0.16).powi(2)
}
fn run_cfg(c: &Cfg) -> Result<u64, String> {
    let (img, _, b) = c.file();
    let out = oneshot(&b.data, &Opts::default(), FmtSel::F32All);
    compare(&out, &img, &b.pic, b.tol).map_err(|e| format!("{c:?} (tolerance {:.1e}): {e}", b.tol))?;
    Ok(out.digest())
}
/// Frames that differ from a plain one in one way.
fn single() -> Vec<Cfg> {
    let mut v = vec![];
    let base = |s: u32| Cfg { size: [(40, 24), (67, 130), (300, 40), (264, 270)][s as usize % 4], seed: s, ts: [1, 5, 3, 5][s as usize % 4], smooth: true, ..Cfg::default() };
    let mut add = |f: &dyn Fn(&mut Cfg)| {
        for s in 0..4 {
            let mut c = base(s + v.len() as u32 / 4 * 4);
            f(&mut c);
            v.push(c);
        }
    };
    for n in 0..8 {
        add(&|c| c.ts = n);
        add(&|c| c.mats = n + 1);
        add(&|c| (c.mats, c.ts) = (n + 1, 7 - n));
    }
    for n in 1..6 {
        add(&|c| c.ctx = n);
        add(&|c| (c.ctx, c.big) = (n, true));
        add(&|c| c.passes = n);
        add(&|c| c.orders = n);
        add(&|c| (c.orders, c.ts) = (n, 4 + n % 4));
        add(&|c| (c.passes, c.orders) = (n, 6 - n));
        add(&|c| c.quant = n);
        add(&|c| c.ccp = n);
        add(&|c| c.code = n);
    }
    for n in 1..4 {
        add(&|c| (c.hists, c.size.0) = (n, 800));
        add(&|c| (c.hists, c.size.0, c.passes) = (n, 1100, n));
        add(&|c| c.ecs = n);
        add(&|c| c.up = n);
        add(&|c| (c.ecs, c.up) = (n, 4 - n));
        add(&|c| (c.ecs, c.passes) = (n, 4 - n));
        add(&|c| (c.xyb, c.quant) = (n, 4));
        add(&|c| (c.xyb, c.quant, c.mats) = (n, 4, 0));
    }
    for n in 1..7 {
        add(&|c| c.filter = n);
        add(&|c| (c.filter, c.quant) = (n, 4));
    }
    for n in 1..64 {
        add(&|c| c.chroma = n);
    }
    add(&|c| c.smooth = false);
    add(&|c| c.lf_frame = true);
    add(&|c| (c.lf_frame, c.passes) = (true, 2));
    add(&|c| c.noise = true);
    add(&|c| (c.noise, c.up) = (true, 1));
    v
}
/// Frames that differ in many ways at once.
pub fn mixed(i: usize) -> Cfg {
    let r = |k: u32, n: u32| hash3(i as u32, k, 1234) % n;
    // each feature is there half of the time
    let o = |k: u32, n: u32| if hash3(i as u32, k, 99) % 2 == 0 { 0 } else { 1 + r(k, n) };
    let sizes = [(8, 8), (33, 47), (129, 65), (256, 256), (257, 31), (300, 290), (520, 64), (70, 515), (513, 513), (1000, 20)];
    let big = o(2, 4) == 4;
    let quant = if big { 4 } else { r(8, 5) };
    Cfg {
        size: sizes[r(0, 10) as usize],
        seed: i as u32,
        ts: r(1, 8),
        big,
        ctx: o(3, 5),
        mats: if big { 0 } else { o(4, 8) },
        passes: o(5, 5),
        orders: o(6, 5),
        hists: o(7, 3),
        chroma: if r(9, 3) == 0 { 1 + r(10, 63) } else { 0 },
        filter: if big || quant != 4 { r(11, 2) } else { o(11, 6) },
        smooth: r(12, 4) > 0,
        quant,
        ccp: o(13, 4),
        lf_frame: r(14, 6) == 0,
        ecs: o(15, 3),
        up: if r(16, 4) == 0 { 1 + r(17, 3) } else { 0 },
        noise: r(18, 8) == 0,
        xyb: 0,
        code: r(20, 60),
    }
}
fn frames_differ(a: &Outcome, b: &Outcome) -> Option<String> {
    if a.end != b.end || a.frames.len() != b.frames.len() {
        return Some(format!("{:?}, {} frames instead of {:?}, {}", b.end, b.frames.len(), a.end, a.frames.len()));
    }
    a.frames.iter().zip(&b.frames).find_map(|(x, y)| frame_diff(x, y))
}
/// Sections in other orders, one by one.
fn arrivals(ctx: &Ctx) {
    let n = ctx.pick(60, 400);
    ctx.par(n, |i| {
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("arrival/{i}"), || {
            let mut c = mixed(5000 + i);
            c.size = [(300, 20), (20, 300), (264, 266), (520, 40)][i % 4];
            c.passes = [0, 1, 2, 4, 3][i % 5];
            let (img, f, b) = c.file();
            let want = oneshot(&b.data, &Opts::default(), FmtSel::F32All);
            compare(&want, &img, &b.pic, b.tol).map_err(|e| format!("{c:?}: {e}"))?;
            let np = f.passes.num as usize;
            let (gw, gh) = f.groups(&img);
            let (ng, head) = (gw * gh, b.ends.len() - 1 - gw * gh * np);
            let mut orders: Vec<Vec<usize>> = vec![];
            let all: Vec<usize> = (0..ng * np).collect();
            orders.push(all.iter().rev().copied().collect());
            // group by group, and the last group's passes first
            orders.push((0..ng).flat_map(|g| (0..np).map(move |p| p * ng + g)).collect());
            orders.push((0..ng).rev().flat_map(|g| (0..np).rev().map(move |p| p * ng + g)).collect());
            for s in 0..ctx.pick(2, 8) {
                orders.push(shuffled(ng * np, 0, (i * 10 + s) as u32, true));
            }
            let mut n = 1;
            for (k, o) in orders.iter().enumerate() {
                let mut order: Vec<usize> = (0..head).chain(o.iter().map(|x| x + head)).collect();
                if k % 2 == 1 {
                    // the common sections last
                    order.rotate_left(head);
                }
                if k == 2 {
                    order[..head].reverse();
                }
                let (data, ends) = b.reorder(&img, &f, &order);
                let mut s = Script::new(&data, 0);
                let opts = Opts::default();
                let mut plan = Plan::new(&opts);
                let out = run(&mut plan, &mut s, &ends);
                if let Some(d) = frames_differ(&want, &out) {
                    return Err(format!("{c:?}: sections in the order {order:?}: {d}"));
                }
                n += 1;
            }
            Ok(Obs::batch(want.digest(), n, n))
        });
    });
}
/// What a flush shows at every point of the arrival of the sections.
fn previews(ctx: &Ctx) {
    let n = ctx.pick(110, 700);
    ctx.par(n, |i| {
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("preview/{i}"), || {
            let mut c = mixed(7000 + i);
            c.size = [(300, 20), (20, 300), (264, 266), (520, 40), (261, 17), (40, 257), (24, 40), (7, 9), (513, 270), (2056, 16), (12, 2070)][i % 11];
            c.passes = [1, 2, 4, 3, 0][i / 11 % 5];
            if c.lf_frame {
                // a picture shown before the filter's strengths are known need not be shown again for them
                c.filter %= 2;
            }
            if i % 11 > 8 {
                (c.up, c.passes) = (0, 1);
            }
            let (mut img, mut f, mut b) = c.file();
            if b.secs.len() == 1 {
                c.passes = 1;
                (img, f, b) = c.file();
            }
            let np = f.passes.num as usize;
            let (gw, gh) = f.groups(&img);
            let (ng, head) = (gw * gh, b.ends.len() - 1 - gw * gh * np);
            // pass by pass; group by group; anyhow, with the passes of a group in order
            let mut orders: Vec<Vec<usize>> = vec![(0..ng * np).collect(), (0..ng).rev().flat_map(|g| (0..np).map(move |p| p * ng + g)).collect()];
            let mut memo: std::collections::HashMap<Vec<usize>, (Pic, f64)> = Default::default();
            for s in 0..ctx.pick(1, 2) {
                let mut next = vec![0; ng];
                orders.push(
                    shuffled(ng * np, 0, (i * 10 + s) as u32, true)
                        .into_iter()
                        .map(|x| {
                            let g = x % ng;
                            next[g] += 1;
                            (next[g] - 1) * ng + g
                        })
                        .collect(),
                );
            }
            let mut n = 0;
            let mut all = 0;
            for (oi, o) in orders.iter().enumerate() {
                let order: Vec<usize> = (0..head).chain(o.iter().map(|x| x + head)).collect();
                let (data, ends) = b.reorder(&img, &f, &order);
                // every flush, and every second one
                for every in 1..=2usize {
                    let at = std::cell::Cell::new(0);
                    let mut bad = None;
                    {
                        let set = |needs: usize| {
                            at.set(needs);
                            (needs + oi) % every == 0
                        };
                        let mut f = |_: usize, drawn: bool, _: &[Vec<u8>], buf: &[Vec<u8>]| {
                            if at.get() < 1 + head || bad.is_some() {
                                return;
                            }
                            let done = at.get() - 1 - head;
                            let mut seen = vec![0; ng];
                            o[..done].iter().for_each(|x| seen[x % ng] += 1);
                            let (want, tol) = memo.entry(seen.clone()).or_insert_with(|| c.preview(&b, &seen));
                            let tol = *tol;
                            n += 1;
                            all = hash(&(all, &seen));
                            let got: Vec<f32> = buf[0].chunks(4).map(|b| f32::from_le_bytes(b.try_into().unwrap())).collect();
                            for k in 0..3 {
                                for (j, w) in want.c[k].iter().enumerate() {
                                    let g = got[3 * j + k] as f64;
                                    if !((g - w).abs() <= tol * w.abs().max(1.0)) && bad.is_none() {
                                        bad = Some(format!("{c:?}: with {seen:?} passes of {np} the flush (drawn: {drawn}) shows {g} in channel {k} at ({},{}), the data received define {w}", j % want.w, j / want.w));
                                    }
                                }
                            }
                        };
                        let opts = Opts::default();
                        let mut plan = Plan::new(&opts);
                        plan.fmt = FmtSel::F32All;
                        plan.flush = &set;
                        plan.on_flush = Some(&mut f);
                        let out = run(&mut plan, &mut Script::new(&data, 0), &ends);
                        if bad.is_none() {
                            compare(&out, &img, &b.pic, b.tol).map_err(|e| format!("{c:?}: after the flushes: {e}"))?;
                        }
                    }
                    if let Some(b) = bad {
                        return Err(b);
                    }
                }
            }
            Ok(Obs::batch(all, n, n))
        });
    });
}
/// What no frame may hold is refused.
fn illegal(ctx: &Ctx) {
    let jobs: Vec<(String, Box<dyn Fn() -> Vec<u8> + Sync + Send>)> = {
        let mut j: Vec<(String, Box<dyn Fn() -> Vec<u8> + Sync + Send>)> = vec![];
        let mut add = |n: String, size: (usize, usize), ts: Vec<usize>, f: Box<dyn Fn(&mut Vd) + Sync + Send>| {
            j.push((
                n,
                Box::new(move || {
                    let (img, fr) = vd_img(size.0, size.1);
                    let mut v = new_vd(&img, &fr, &kind(3, ts.clone()));
                    f(&mut v);
                    let mut bw = Bw::new();
                    img.write(&mut bw);
                    let (secs, _) = v.write(&img, &fr, None, &mut |_, _, _, _| 0);
                    assemble(&img, &fr, &secs, None, &mut bw);
                    bw.bytes
                }),
            ));
        };
        for t in [27, 28, 255, 256, 300, 1 << 20, -1] {
            add(format!("transform {t}"), (16, 16), vec![0], Box::new(move |v| v.blocks[0][1].t = t));
        }
        for s in [8, -1, 255, 256, 1 << 20] {
            add(format!("sharpness {s}"), (16, 16), vec![0], Box::new(move |v| v.sharp.data[3] = s));
        }
        for t in (0..27).filter(|t| COVER[*t] != (1, 1)) {
            // the block does not fit into the frame
            let (cx, cy) = COVER[t];
            for (w, h) in [(cx * 8 - 8, cy * 8), (cx * 8, cy * 8 - 8)] {
                if w > 0 && h > 0 {
                    add(format!("transform {t} in {w}x{h}"), (w, h), vec![0], Box::new(move |v| v.blocks[0][0].t = t as i32));
                }
            }
            // crosses the border of a group
            for (x, y) in [(32 - cx / 2, 0), (0, 32 - cy / 2)] {
                if (cx > 1 && x > 0 && x < 32) || (cy > 1 && y > 0 && y < 32) {
                    add(
                        format!("transform {t} at {x},{y}"),
                        (512, 512),
                        vec![0],
                        Box::new(move |v| {
                            let k = v.blocks[0].iter().position(|b| (b.x, b.y) == (x, y)).unwrap();
                            v.blocks[0][k].t = t as i32;
                        }),
                    );
                }
            }
            // overlaps one that starts in an earlier row
            if cx > 1 {
                for t2 in (0..27).filter(|t| COVER[*t].1 > 1 && COVER[*t].0 <= 8) {
                    // the tall one at the right, the wide one in the second row
                    let w = cx - 1 + COVER[t2].0;
                    let h = (cy + 1).max(COVER[t2].1);
                    if w > 32 || h > 32 {
                        continue;
                    }
                    add(
                        format!("transform {t} over {t2}"),
                        (8 * w, 8 * h),
                        vec![0],
                        Box::new(move |v| {
                            let mut l = vec![];
                            for x in 0..cx - 1 {
                                l.push(Blk { x, y: 0, t: 0, q: 5 });
                            }
                            l.push(Blk { x: cx - 1, y: 0, t: t2 as i32, q: 5 });
                            l.push(Blk { x: 0, y: 1, t: t as i32, q: 5 });
                            for y in 1..h {
                                for x in 0..w {
                                    let over = (y < COVER[t2].1 && x >= cx - 1) || (y < 1 + cy && x < cx);
                                    if !over {
                                        l.push(Blk { x, y, t: 0, q: 5 });
                                    }
                                }
                            }
                            v.coef[0] = l.iter().map(|b| std::array::from_fn(|_| vec![vec![1; 64 * COVER[b.t as usize].0 * COVER[b.t as usize].1]])).collect();
                            for (i, b) in l.iter().enumerate() {
                                let low: Vec<usize> = natural(SHAPE[b.t as usize])[..COVER[b.t as usize].0 * COVER[b.t as usize].1].to_vec();
                                for c in 0..3 {
                                    low.iter().for_each(|k| v.coef[0][i][c][0][*k] = 0);
                                }
                            }
                            v.blocks[0] = l;
                        }),
                    );
                }
            }
        }
        // fewer blocks than are needed
        for n in 1..4 {
            add(
                format!("only {n} blocks"),
                (16, 16),
                vec![0],
                Box::new(move |v| {
                    v.blocks[0].truncate(n);
                    v.coef[0].truncate(n);
                }),
            );
        }
        for n in [64, 65, 200, 1 << 20, -1] {
            add(format!("{n} coefficients"), (8, 8), vec![0], Box::new(move |v| v.bad = Some((1, n))));
        }
        for n in [3, 2] {
            add(
                format!("histogram {n}"),
                (600, 300),
                vec![0],
                Box::new(move |v| {
                    v.nhist = if n == 3 { 3 } else { 5 };
                    v.bad = Some((2, if n == 3 { 3 } else { 7 }));
                }),
            );
        }
        for (i, m) in (0..17).flat_map(|i| (1..6).map(move |m| (i, m))).filter(|(i, _)| TABLE_SIZE[*i] != (1, 1)) {
            add(
                format!("table {i} mode {m}"),
                (8, 8),
                vec![0],
                Box::new(move |v| {
                    let mut t = vec![Qenc::Lib; 17];
                    t[i] = qenc(i, m, 1);
                    v.mats = Some(t);
                }),
            );
        }
        for (k, val) in [(0, 0), (1, -1), (5, 0), (191, -65536)] {
            add(
                format!("raw table entry {k} {val}"),
                (8, 8),
                vec![0],
                Box::new(move |v| {
                    let mut q = vec![1; 192];
                    q[k] = val;
                    v.mats = Some([vec![Qenc::Raw(h(0.25), q)], vec![Qenc::Lib; 16]].concat());
                }),
            );
        }
        for b in [0.0, -1.0] {
            for n in 0..3usize {
                add(
                    format!("band {n} {b}"),
                    (8, 8),
                    vec![0],
                    Box::new(move |v| {
                        let mut q = bands(3, 10.0, 1);
                        q.0[n][0] = h(b);
                        v.mats = Some([vec![Qenc::Dct(q)], vec![Qenc::Lib; 16]].concat());
                    }),
                );
            }
        }
        for f in [0x7c00u16, 0x7e00, 0x4500] {
            for k in 0..2 {
                add(
                    format!("colour correlation {f:x} {k}"),
                    (8, 8),
                    vec![0],
                    Box::new(move |v| {
                        let mut base = [0, 0];
                        base[k] = f;
                        v.ccp = Some(Ccp { factor: 84, base, lf: [0, 0] });
                    }),
                );
            }
        }
        for n in 0..3 {
            add(
                format!("too many contexts {n}"),
                (8, 8),
                vec![0],
                Box::new(move |v| {
                    let lf: [Vec<i32>; 3] = [vec![1; [15, 4, 0][n]], vec![2; [4, 4, 0][n]], vec![3; [0, 1, 0][n]]];
                    let qf = vec![7; [0, 1, 0][n]];
                    let size = 39 * lf.iter().map(|t| t.len() + 1).product::<usize>() * (qf.len() + 1);
                    let nc = if n == 2 { 17 } else { 1 };
                    v.bctx = Some(Bctx { lf, qf, map: CtxMap::Coded { map: (0..size).map(|i| (i % nc) as u8).collect(), mtf: false, ent: Box::new(Ent::auto(1)), copies: false } });
                }),
            );
        }
        j
    };
    ctx.note(format!("{} illegal frames", jobs.len()));
    ctx.par(jobs.len(), |i| {
        ctx.case(&format!("illegal/{}", jobs[i].0), || {
            let data = jobs[i].1();
            let out = oneshot(&data, &Opts::default(), FmtSel::F32All);
            if !matches!(out.end, End::Error(_)) {
                return Err(format!("accepted: {:?}, {} frames", out.end, out.frames.len()));
            }
            Ok(Obs::new(hash(&i), 1))
        });
    });
}
/// Every transform at every size around its own.
fn transforms(ctx: &Ctx) {
    let ks = ctx.pick(6, 40);
    ctx.par(27 * ks, |i| {
        let (t, k) = (i % 27, i / 27);
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("transform/{t}/{k}"), || {
            let (cx, cy) = COVER[t];
            let (w, h) = if k < 4 { (cx * 8, cy * 8) } else { (cx * 8 + (k * 7 % 11), cy * 8 * (1 + k % 2) + k) };
            let (img, f) = vd_img(w, h);
            let v = new_vd(&img, &f, &Kind { dense: [200, 256, 20, 90][k % 4], ..kind((t + 100 * k) as u32, vec![t]) });
            Ok(Obs::new(judge(&img, &f, &v).map_err(|e| format!("{w}x{h}: {e}"))?, 1))
        });
    });
}
pub fn c28(ctx: &Ctx) {
    ctx.set_rule("state space: mixed VarDCT frames of 1 to 11 passes, 1 to 9 groups and 1 or 2 LF groups x orders of arrival (pass by pass, group by group, interleaved) x a flush after every section or after every second one: every flush must show the picture that the sections received so far define (groups without coefficients: the low-frequency picture enlarged 8 times; others: the passes so far), every pixel compared with a model in double precision, and the end result must be the whole picture; non-vacuous: distinct arrival states are counted by what was received of each group");
    ctx.assume("flushes before all low-frequency and common sections are there are not judged; extra channels are not judged before the end; frames with an LF frame and the edge-preserving filter are not generated");
    previews(ctx);
}
pub fn c27(ctx: &Ctx) {
    ctx.set_rule("state space: VarDCT frames written by a small encoder (every transform; every context map, table, order, pass, histogram, colour-correlation, quantiser and subsampling form alone over 4 contents and sizes; mixtures of all of them; all arrival orders tried give the same picture; every listed illegal frame is refused), every pixel compared with the defining sums in double precision; non-vacuous: blocks with dense, sparse and no coefficients, every cluster reads its numbers in a way of its own");
    ctx.assume("float output is within 3e-6 (transforms up to 32) to 3e-5 (256) of the definition, relative to the block's greatest magnitude; 20 times that behind the edge-preserving filter, and what the cube makes of it for XYB");
    transforms(ctx);
    let s = single();
    ctx.note(format!("{} frames that differ in one way", s.len()));
    ctx.par(s.len(), |i| {
        if !ctx.out_of_time() {
            ctx.case(&format!("single/{i}"), || Ok(Obs::new(run_cfg(&s[i])?, 1)));
        }
    });
    illegal(ctx);
    arrivals(ctx);
    let n = ctx.pick(240, 6000);
    ctx.par(n, |i| {
        if !ctx.out_of_time() {
            ctx.case(&format!("mixed/{i}"), || Ok(Obs::new(run_cfg(&mixed(i))?, 1)));
        }
    });
    // more than one LF group
    let wide: Vec<(usize, usize)> = vec![(2056, 16), (16, 2065), (4100, 8), (2304, 264), (8, 4200)];
    ctx.par(wide.len() * 2, |i| {
        if !ctx.out_of_time() {
            ctx.case(&format!("wide/{i}"), || {
                let c = Cfg { size: wide[i / 2], ctx: 2 + i as u32 % 4, ..mixed(9000 + i) };
                let c = Cfg { up: 0, lf_frame: false, chroma: if i % 3 == 2 { 0b000110 } else { 0 }, filter: i as u32 % 2, ..c };
                Ok(Obs::new(run_cfg(&c)?, 1))
            });
        }
    });
}
