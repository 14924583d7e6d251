//! C20: block transforms. A linear map is decided by its values on the basis: every coefficient of every transform is
//! set alone (and a few dense blocks are transformed to decide that the map is linear), on every instruction-set level,
//! and compared with the transform's defining sums in double precision.
use crate::engine::*;
use jxl_simd::*;
use jxl_transforms::transform::transform_to_pixels_impl;
use jxl_transforms::transform_map::*;
use std::f64::consts::PI;

/// Size of the block in pixels: rows, columns.
pub fn dims(t: usize) -> (usize, usize) {
    const S: [(usize, usize); 27] = [
        (8, 8), (8, 8), (8, 8), (8, 8), (16, 16), (32, 32), (16, 8), (8, 16), (32, 8), (8, 32), (32, 16), (16, 32), (8, 8), (8, 8),
        (8, 8), (8, 8), (8, 8), (8, 8), (64, 64), (64, 32), (32, 64), (128, 128), (128, 64), (64, 128), (256, 256), (256, 128), (128, 256),
    ];
    S[t]
}
/// Value of basis function `k` of a cosine transform of `n` points at each point.
fn cosines(n: usize) -> Vec<Vec<f64>> {
    (0..n)
        .map(|k| (0..n).map(|x| if k == 0 { 1.0 } else { 2f64.sqrt() * ((x as f64 + 0.5) * k as f64 * PI / n as f64).cos() }).collect())
        .collect()
}
/// Pixels of the cosine transform of `h` x `w` coefficients; tall and square blocks are stored transposed.
pub fn idct(c: &[f64], h: usize, w: usize) -> Vec<f64> {
    let (cy, cx) = (cosines(h), cosines(w));
    let at = |v: usize, u: usize| if h < w { c[v * w + u] } else { c[u * h + v] };
    // rows first, skipping what is zero
    let mut tmp = vec![0.0; h * w];
    for v in 0..h {
        for u in 0..w {
            let a = at(v, u);
            if a != 0.0 {
                for x in 0..w {
                    tmp[v * w + x] += a * cx[u][x];
                }
            }
        }
    }
    let mut out = vec![0.0; h * w];
    for v in 0..h {
        if tmp[v * w..(v + 1) * w].iter().all(|x| *x == 0.0) {
            continue;
        }
        for y in 0..h {
            for x in 0..w {
                out[y * w + x] += tmp[v * w + x] * cy[v][y];
            }
        }
    }
    out
}
fn hadamard(a: f64, b: f64, c: f64, d: f64) -> [f64; 4] {
    [a + b + c + d, a + b - c - d, a - b + c - d, a - b - c + d]
}
/// The transforms of single 8x8 blocks that are not a plain cosine transform.
pub fn special(t: usize, c: &[f64]) -> Vec<f64> {
    let mut p = vec![0.0; 64];
    // every second coefficient from (y, x): one 4x4 block
    let sub = |y: usize, x: usize, first: f64| -> Vec<f64> { (0..16).map(|i| if i == 0 { first } else { c[(y + i / 4 * 2) * 8 + x + i % 4 * 2] }).collect() };
    // every second row from y: one 4x8 block
    let half = |y: usize, first: f64| -> Vec<f64> { (0..32).map(|i| if i == 0 { first } else { c[(y + i / 8 * 2) * 8 + i % 8] }).collect() };
    let dc = hadamard(c[0], c[1], c[8], c[9]);
    match t {
        1 => {
            for q in 0..4 {
                let (y, x) = (q / 2, q % 2);
                let s = sub(y, x, 0.0);
                let base = dc[q] - s.iter().sum::<f64>() / 16.0;
                for i in 0..16 {
                    // the residual of the base pixel is stored first, the first pixel's in its place
                    let r = match i {
                        0 => s[5],
                        5 => 0.0,
                        i => s[i],
                    };
                    p[(y * 4 + i / 4) * 8 + x * 4 + i % 4] = base + r;
                }
            }
        }
        2 => {
            let mut c = c.to_vec();
            for s in [1usize, 2, 4] {
                let old = c.clone();
                for y in 0..s {
                    for x in 0..s {
                        let q = hadamard(old[y * 8 + x], old[y * 8 + s + x], old[(s + y) * 8 + x], old[(s + y) * 8 + s + x]);
                        for i in 0..4 {
                            c[(2 * y + i / 2) * 8 + 2 * x + i % 2] = q[i];
                        }
                    }
                }
            }
            p = c;
        }
        3 => {
            for q in 0..4 {
                let b = idct(&sub(q / 2, q % 2, dc[q]), 4, 4);
                for i in 0..16 {
                    p[(q / 2 * 4 + i / 4) * 8 + q % 2 * 4 + i % 4] = b[i];
                }
            }
        }
        12 => {
            for k in 0..2 {
                let b = idct(&half(k, if k == 0 { c[0] + c[8] } else { c[0] - c[8] }), 4, 8);
                p[k * 32..k * 32 + 32].copy_from_slice(&b);
            }
        }
        13 => {
            for k in 0..2 {
                let b = idct(&half(k, if k == 0 { c[0] + c[8] } else { c[0] - c[8] }), 8, 4);
                for i in 0..32 {
                    p[i / 4 * 8 + k * 4 + i % 4] = b[i];
                }
            }
        }
        14..=17 => {
            let (kx, ky) = ((t - 14) % 2, (t - 14) / 2);
            let a = sub(0, 0, (c[0] + c[8] + c[1]) * 4.0);
            for i in 0..16 {
                let v: f64 = (0..16).map(|j| a[j] * AFV[j * 16 + i]).sum();
                let (y, x) = (if ky == 1 { 3 - i / 4 } else { i / 4 }, if kx == 1 { 3 - i % 4 } else { i % 4 });
                p[(ky * 4 + y) * 8 + kx * 4 + x] = v;
            }
            let b = idct(&sub(0, 1, c[0] + c[8] - c[1]), 4, 4);
            for i in 0..16 {
                p[(ky * 4 + i / 4) * 8 + (1 - kx) * 4 + i % 4] = b[i];
            }
            let b = idct(&half(1, c[0] - c[8]), 4, 8);
            for i in 0..32 {
                p[((1 - ky) * 4 + i / 8) * 8 + i % 8] = b[i];
            }
        }
        _ => unreachable!(),
    }
    p
}
pub fn is_special(t: usize) -> bool {
    matches!(t, 1 | 2 | 3 | 12..=17)
}
/// Coefficients from the low-frequency samples: the picture with these alone has the samples as its block averages.
pub fn low(lf: &[f64], h: usize, w: usize) -> Vec<f64> {
    let (bh, bw) = (h / 8, w / 8);
    let (cy, cx) = (cosines(bh), cosines(bw));
    let f = |k: usize, n: usize| {
        let th = k as f64 * PI / (16 * n) as f64;
        th.cos() * (2.0 * th).cos() * (4.0 * th).cos()
    };
    let mut c = vec![0.0; h * w];
    for v in 0..bh {
        for u in 0..bw {
            let mut s = 0.0;
            for y in 0..bh {
                for x in 0..bw {
                    s += lf[y * bw + x] * cy[v][y] * cx[u][x];
                }
            }
            s /= (bh * bw) as f64 * f(v, bh) * f(u, bw);
            c[if h < w { v * w + u } else { u * h + v }] = s;
        }
    }
    c
}
pub fn is_low(i: usize, h: usize, w: usize) -> bool {
    let (v, u) = if h < w { (i / w, i % w) } else { (i % h, i / h) };
    v < h / 8 && u < w / 8
}
const PAD: usize = 24;
struct Run<D: SimdDescriptor> {
    d: D,
    name: &'static str,
}
impl<D: SimdDescriptor> Run<D> {
    /// Transforms; everything that is not an input holds a number that must neither be used nor changed.
    fn apply(&self, t: usize, lf: &[f32], c: &[f32], buf: &mut Vec<f32>) -> Result<(), String> {
        let (h, w) = dims(t);
        let n = h * w;
        let mark = f32::from_bits(0x7fc1_2345);
        buf.clear();
        buf.extend_from_slice(c);
        buf.extend([mark; PAD]);
        for v in 0..h / 8 {
            for u in 0..w / 8 {
                buf[if h < w { v * w + u } else { u * h + v }] = mark;
            }
        }
        let mut l = lf.to_vec();
        l.extend([mark; PAD]);
        let ty = HfTransformType::from_usize(t).unwrap();
        let (b, ll) = (&mut buf[..], &mut l[..]);
        self.d.call(|d| transform_to_pixels_impl(d, ty, ll, b));
        if buf[n..].iter().chain(&l[lf.len()..]).any(|x| x.to_bits() != mark.to_bits()) {
            return Err(format!("{} transform {t}: memory outside the block changed", self.name));
        }
        Ok(())
    }
    fn close(&self, t: usize, got: &[f32], want: &[f64], scale: f64, what: &dyn std::fmt::Debug) -> Result<(), String> {
        // rounding grows with the depth of the recursion
        let tol = match dims(t).0.max(dims(t).1) {
            0..=32 => 1e-5,
            64 => 2e-5,
            128 => 4e-5,
            _ => 1e-4,
        };
        let mut all = true;
        for (g, w) in got.iter().zip(want) {
            all &= (*g as f64 - w).abs() <= tol * scale;
        }
        if all {
            return Ok(());
        }
        for (i, w) in want.iter().enumerate() {
            if !((got[i] as f64 - w).abs() <= tol * scale) {
                return Err(format!("{} transform {t} {what:?}: pixel {i} is {}, not {w}", self.name, got[i]));
            }
        }
        Ok(())
    }
    fn basis(&self, t: usize, from: usize, to: usize, some: Option<usize>) -> Result<u64, String> {
        let (h, w) = dims(t);
        let (cy, cx) = (cosines(h), cosines(w));
        let mut c = vec![0f32; h * w];
        let lf = vec![0f32; h * w / 64];
        let mut buf = vec![];
        let mut want = vec![0f64; h * w];
        let mut k = 0;
        for i in from..to {
            if is_low(i, h, w) || h.max(w) >= 128 && some.is_some_and(|m| (i + i / w) % 4 != m) {
                continue;
            }
            for a in [1.0f32, -3.0] {
                if a < 0.0 && h * w > 1024 && i % 5 != 0 {
                    continue;
                }
                c[i] = a;
                self.apply(t, &lf, &c, &mut buf)?;
                if is_special(t) {
                    want = special(t, &c.iter().map(|x| *x as f64).collect::<Vec<_>>());
                } else {
                    let (v, u) = if h < w { (i / w, i % w) } else { (i % h, i / h) };
                    for y in 0..h {
                        let r = a as f64 * cy[v][y];
                        for x in 0..w {
                            want[y * w + x] = r * cx[u][x];
                        }
                    }
                }
                self.close(t, &buf, &want, a.abs() as f64, &("coefficient", i))?;
                k += 1;
            }
            c[i] = 0.0;
        }
        Ok(k)
    }
    fn lows(&self, t: usize) -> Result<u64, String> {
        let (h, w) = dims(t);
        let (bh, bw) = (h / 8, w / 8);
        let c = vec![0f32; h * w];
        let mut buf = vec![];
        let mut k = 0;
        for i in 0..bh * bw {
            let mut lf = vec![0f32; bh * bw];
            lf[i] = 1.0;
            self.apply(t, &lf, &c, &mut buf)?;
            let lf64: Vec<f64> = lf.iter().map(|x| *x as f64).collect();
            let want = if is_special(t) {
                let mut c = vec![0.0; 64];
                c[0] = 1.0;
                special(t, &c)
            } else {
                idct(&low(&lf64, h, w), h, w)
            };
            self.close(t, &buf, &want, 1.0, &("low frequency", i))?;
            // the averages of the blocks are the samples
            for by in 0..bh {
                for bx in 0..bw {
                    let mut s = 0.0;
                    for p in 0..64 {
                        s += buf[(by * 8 + p / 8) * w + bx * 8 + p % 8] as f64;
                    }
                    let want = if by * bw + bx == i { 64.0 } else { 0.0 };
                    if (s - want).abs() > 1e-3 {
                        return Err(format!("{} transform {t}: low-frequency sample {i}: block ({bx},{by}) has average {}", self.name, s / 64.0));
                    }
                }
            }
            k += 1;
        }
        Ok(k)
    }
    /// Blocks with every coefficient set: the map is linear.
    fn dense(&self, t: usize) -> Result<u64, String> {
        let (h, w) = dims(t);
        let mut k = 0;
        let mut buf = vec![];
        for kind in 0..4usize {
            let f = |i: usize| -> f32 {
                match kind {
                    0 => ((i * 7919 + 13) % 257) as f32 / 64.0 - 2.0,
                    1 => if i % 3 == 0 { 1.0 } else { 0.0 },
                    2 => 1.0 / (1.0 + i as f32) * if i % 2 == 0 { 1.0 } else { -1.0 },
                    _ => if i * 3 / (h * w) == 1 { 0.0 } else { (i % 17) as f32 - 8.0 },
                }
            };
            let c: Vec<f32> = (0..h * w).map(f).collect();
            let lf: Vec<f32> = (0..h * w / 64).map(|i| f(i * 5 + 1)).collect();
            self.apply(t, &lf, &c, &mut buf)?;
            let lf64: Vec<f64> = lf.iter().map(|x| *x as f64).collect();
            let mut full = if is_special(t) { vec![0.0; 64] } else { low(&lf64, h, w) };
            for i in 0..h * w {
                if !is_low(i, h, w) {
                    full[i] = c[i] as f64;
                }
            }
            let want = if is_special(t) {
                full[0] = lf64[0];
                special(t, &full)
            } else {
                idct(&full, h, w)
            };
            let scale = want.iter().fold(1.0f64, |m, x| m.max(x.abs()));
            self.close(t, &buf, &want, scale, &("dense", kind))?;
            k += 1;
        }
        Ok(k)
    }
}
fn level<D: SimdDescriptor>(ctx: &Ctx, name: &'static str, some: Option<usize>) {
    // quick: of the largest transforms every coefficient on one level at least, a quarter of them on the others
    let some = some.filter(|_| ctx.quick());
    let Some(d) = D::new() else {
        ctx.note(format!("this machine does not offer {name}"));
        return;
    };
    let r = Run { d, name };
    let mut work = vec![];
    for t in (0..27).rev() {
        let (h, w) = dims(t);
        let step = (h * w).min(4096);
        for from in (0..h * w).step_by(step) {
            work.push((t, from, from + step));
        }
    }
    ctx.par(work.len(), |i| {
        let (t, from, to) = work[i];
        ctx.case(&format!("{name}/{t}/{from}"), || {
            let mut k = r.basis(t, from, to, some)?;
            if from == 0 {
                k += r.lows(t)? + r.dense(t)?;
            }
            Ok(Obs::batch(hash(&(name, i)), k, k))
        });
    });
}
pub fn c20(ctx: &Ctx) {
    ctx.set_rule("every block transform equals its defining sums on every basis block and on dense blocks (so as a linear map), uses and changes only the block, and reproduces the low-frequency samples as block averages");
    ctx.assume("errors of up to 1e-5 of the block's amplitude (2e-5, 4e-5, 1e-4 for sides of 64, 128, 256) are rounding");
    ctx.note("27 transforms x every coefficient and every low-frequency sample x all instruction-set levels".to_string());
    ctx.case("shapes", || {
        for t in 0..28 {
            let ty = HfTransformType::from_usize(t);
            match ty {
                None if t == 27 => {}
                Some(ty) if t < 27 => {
                    let (h, w) = dims(t);
                    if covered_blocks_y(ty) as usize * 8 != h || covered_blocks_x(ty) as usize * 8 != w {
                        return Err(format!("transform {t} covers {}x{} blocks", covered_blocks_x(ty), covered_blocks_y(ty)));
                    }
                }
                _ => return Err(format!("transform {t}: {ty:?}")),
            }
        }
        // the corner basis is orthonormal
        for a in 0..16 {
            for b in 0..16 {
                let s: f64 = (0..16).map(|i| AFV[a * 16 + i] * AFV[b * 16 + i]).sum();
                assert!((s - (a == b) as u32 as f64).abs() < 1e-9, "jxlmc-harness: corner basis {a} {b}: {s}");
            }
        }
        Ok(Obs::new(1, 27))
    });
    level::<ScalarDescriptor>(ctx, "scalar", Some(0));
    #[cfg(target_arch = "x86_64")]
    {
        level::<Sse42Descriptor>(ctx, "sse42", Some(1));
        level::<AvxDescriptor>(ctx, "avx", Some(2));
        level::<Avx512Descriptor>(ctx, "avx512", Some(3));
    }
}
/// The basis of the corner transform, as tabulated in the specification.
#[rustfmt::skip]
const AFV: [f64; 256] = [
    0.25, 0.25, 0.25, 0.25,
    0.25, 0.25, 0.25, 0.25,
    0.25, 0.25, 0.25, 0.25,
    0.25, 0.25, 0.25, 0.25,
    0.876902929799142, 0.2206518106944235, -0.10140050393753763, -0.1014005039375375,
    0.2206518106944236, -0.10140050393753777, -0.10140050393753772, -0.10140050393753763,
    -0.10140050393753758, -0.10140050393753769, -0.1014005039375375, -0.10140050393753768,
    -0.10140050393753768, -0.10140050393753759, -0.10140050393753763, -0.10140050393753741,
    0.0, 0.0, 0.40670075830260755, 0.44444816619734445,
    0.0, 0.0, 0.19574399372042936, 0.2929100136981264,
    -0.40670075830260716, -0.19574399372042872, 0.0, 0.11379074460448091,
    -0.44444816619734384, -0.29291001369812636, -0.1137907446044814, 0.0,
    0.0, 0.0, -0.21255748058288748, 0.3085497062849767,
    0.0, 0.4706702258572536, -0.1621205195722993, 0.0,
    -0.21255748058287047, -0.16212051957228327, -0.47067022585725277, -0.1464291867126764,
    0.3085497062849487, 0.0, -0.14642918671266536, 0.4251149611657548,
    0.0, -0.7071067811865474, 0.0, 0.0,
    0.7071067811865476, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0,
    -0.4105377591765233, 0.6235485373547691, -0.06435071657946274, -0.06435071657946266,
    0.6235485373547694, -0.06435071657946284, -0.0643507165794628, -0.06435071657946274,
    -0.06435071657946272, -0.06435071657946279, -0.06435071657946266, -0.06435071657946277,
    -0.06435071657946277, -0.06435071657946273, -0.06435071657946274, -0.0643507165794626,
    0.0, 0.0, -0.4517556589999482, 0.15854503551840063,
    0.0, -0.04038515160822202, 0.0074182263792423875, 0.39351034269210167,
    -0.45175565899994635, 0.007418226379244351, 0.1107416575309343, 0.08298163094882051,
    0.15854503551839705, 0.3935103426921022, 0.0829816309488214, -0.45175565899994796,
    0.0, 0.0, -0.304684750724869, 0.5112616136591823,
    0.0, 0.0, -0.290480129728998, -0.06578701549142804,
    0.304684750724884, 0.2904801297290076, 0.0, -0.23889773523344604,
    -0.5112616136592012, 0.06578701549142545, 0.23889773523345467, 0.0,
    0.0, 0.0, 0.3017929516615495, 0.25792362796341184,
    0.0, 0.16272340142866204, 0.09520022653475037, 0.0,
    0.3017929516615503, 0.09520022653475055, -0.16272340142866173, -0.35312385449816297,
    0.25792362796341295, 0.0, -0.3531238544981624, -0.6035859033230976,
    0.0, 0.0, 0.40824829046386274, 0.0,
    0.0, 0.0, 0.0, -0.4082482904638628,
    -0.4082482904638635, 0.0, 0.0, -0.40824829046386296,
    0.0, 0.4082482904638634, 0.408248290463863, 0.0,
    0.0, 0.0, 0.1747866975480809, 0.0812611176717539,
    0.0, 0.0, -0.3675398009862027, -0.307882213957909,
    -0.17478669754808135, 0.3675398009862011, 0.0, 0.4826689115059883,
    -0.08126111767175039, 0.30788221395790305, -0.48266891150598584, 0.0,
    0.0, 0.0, -0.21105601049335784, 0.18567180916109802,
    0.0, 0.0, 0.49215859013738733, -0.38525013709251915,
    0.21105601049335806, -0.49215859013738905, 0.0, 0.17419412659916217,
    -0.18567180916109904, 0.3852501370925211, -0.1741941265991621, 0.0,
    0.0, 0.0, -0.14266084808807264, -0.3416446842253372,
    0.0, 0.7367497537172237, 0.24627107722075148, -0.08574019035519306,
    -0.14266084808807344, 0.24627107722075137, 0.14883399227113567, -0.04768680350229251,
    -0.3416446842253373, -0.08574019035519267, -0.047686803502292804, -0.14266084808807242,
    0.0, 0.0, -0.13813540350758585, 0.3302282550303788,
    0.0, 0.08755115000587084, -0.07946706605909573, -0.4613374887461511,
    -0.13813540350758294, -0.07946706605910261, 0.49724647109535086, 0.12538059448563663,
    0.3302282550303805, -0.4613374887461554, 0.12538059448564315, -0.13813540350758452,
    0.0, 0.0, -0.17437602599651067, 0.0702790691196284,
    0.0, -0.2921026642334881, 0.3623817333531167, 0.0,
    -0.1743760259965108, 0.36238173335311646, 0.29210266423348785, -0.4326608024727445,
    0.07027906911962818, 0.0, -0.4326608024727457, 0.34875205199302267,
    0.0, 0.0, 0.11354987314994337, -0.07417504595810355,
    0.0, 0.19402893032594343, -0.435190496523228, 0.21918684838857466,
    0.11354987314994257, -0.4351904965232251, 0.5550443808910661, -0.25468277124066463,
    -0.07417504595810233, 0.2191868483885728, -0.25468277124066413, 0.1135498731499429,
];
