//! C10, C11, C26: output formats, orientation and decoding options.
use super::lossless::hash3;
use crate::dec::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::engine::*;
use crate::genfiles;
use crate::seeds::{self, Seed};
use jxl::api::*;
use jxl::headers::extra_channels::ExtraChannel;

/// What the choice of a format depends on.
#[derive(Clone, Debug)]
pub struct Meta {
    pub gray: bool,
    /// Index of the first alpha channel, and whether colour is already multiplied by it.
    pub alpha: Option<(usize, bool)>,
    pub ecs: usize,
    pub spots: bool,
    pub unsure_clamp: bool,
    pub size: (usize, usize),
}
pub fn meta(data: &[u8], opts: &Opts) -> Option<Meta> {
    let mut s = Script::new(data, data.len());
    let mut p = Plan::new(opts);
    p.max_frames = 0;
    let (o, d) = run_from(Dec::Init(JxlDecoder::new(opts.to_jxl())), &mut p, &mut s, &[data.len()]);
    let info = o.info?;
    let Dec::Img(d) = d else { return None };
    let b = d.basic_info();
    let alpha = b.extra_channels.iter().enumerate().find(|e| e.1.ec_type == ExtraChannel::Alpha);
    Some(Meta {
        gray: d.current_pixel_format().color_type.is_grayscale(),
        alpha: alpha.map(|(i, e)| (i, e.alpha_associated)),
        ecs: b.extra_channels.len(),
        spots: b.extra_channels.iter().any(|e| e.ec_type == ExtraChannel::SpotColor),
        unsure_clamp: info.contains("PQ") || info.contains("HLG") || info.contains("icc["),
        size: b.size,
    })
}
/// Half float nearest to `v`, ties to even.
pub fn to_f16(v: f32) -> u16 {
    let b = v.to_bits();
    let s = ((b >> 16) & 0x8000) as u16;
    let a = f64::from(v).abs();
    if v.is_nan() {
        return s | 0x7e00;
    }
    if a >= 65520.0 {
        return s | 0x7c00;
    }
    // spacing of half floats at a
    let e = if a < 2f64.powi(-14) { -24 } else { (a.log2().floor() as i32).max(-14) - 10 };
    let e = if a > 0.0 && a >= 2f64.powi(e + 11) { e + 1 } else if a > 0.0 && e > -24 && a < 2f64.powi(e + 10) { e - 1 } else { e };
    let q = a / 2f64.powi(e);
    let r = q.round_ties_even() as u32; // up to 2048
    if e == -24 && r < 1024 {
        return s | r as u16;
    }
    s | ((((e + 24) as u32) << 10) + r) as u16
}
pub fn from_f16(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let (e, m) = ((h >> 10 & 31) as i32, (h & 0x3ff) as f64);
    s * match e {
        0 => m * 2f64.powi(-24),
        31 => if m == 0.0 { f64::INFINITY } else { f64::NAN },
        e => (1024.0 + m) * 2f64.powi(e - 25),
    }
}
fn be(e: Endianness) -> bool {
    e == Endianness::BigEndian
}
/// Checks the stored sample `b` against the float sample `v`.
pub fn sample_ok(df: &JxlDataFormat, b: &[u8], v: f32, unsure_clamp: bool, opaque: bool, slack: f64) -> Result<(), String> {
    match df {
        JxlDataFormat::U8 { bit_depth } => {
            let max = ((1u32 << bit_depth) - 1) as f64;
            if v.is_nan() {
                return Ok(());
            }
            let want = (v as f64 * max).clamp(0.0, max);
            let got = b[0] as f64;
            let near = (want - want.round()).abs() < 0.0075 - want * 1e-6 - slack * max;
            let tol = if near || opaque { 0.01 + slack * max } else { 0.9925 + want * 1e-6 + slack * max };
            if (got - want).abs() > tol {
                return Err(format!("8-bit sample (depth {bit_depth}) is {got}, float value {v} gives {want}"));
            }
        }
        JxlDataFormat::U16 { endianness, bit_depth } => {
            let max = ((1u32 << bit_depth) - 1) as f64;
            if v.is_nan() {
                return Ok(());
            }
            let want = (v as f64 * max).clamp(0.0, max);
            let a = [b[0], b[1]];
            let got = if be(*endianness) { u16::from_be_bytes(a) } else { u16::from_le_bytes(a) } as f64;
            if (got - want).abs() > 0.5 + want * 2e-7 + slack * max {
                return Err(format!("16-bit sample (depth {bit_depth}) is {got}, float value {v} gives {want}"));
            }
        }
        JxlDataFormat::F16 { endianness } => {
            let a = [b[0], b[1]];
            let got = if be(*endianness) { u16::from_be_bytes(a) } else { u16::from_le_bytes(a) };
            let ok = |v: f32| {
                let w = to_f16(v);
                let near = |d: f32| {
                    let (g, w) = (from_f16(got), from_f16(to_f16(v + d)));
                    if d > 0.0 { g <= w } else { g >= w }
                };
                w == got || slack > 0.0 && near(slack as f32) && near(-slack as f32) || (v.is_nan() && got & 0x7c00 == 0x7c00 && got & 0x3ff != 0)
            };
            if !(ok(v) || unsure_clamp && (ok(v.clamp(0.0, 1.0)) || ok(v.clamp(-0.074, 1.1)))) {
                return Err(format!("half-float sample is {got:#06x}, float value {v:e} gives {:#06x}", to_f16(v)));
            }
        }
        JxlDataFormat::F32 { endianness } => {
            let a = [b[0], b[1], b[2], b[3]];
            let got = if be(*endianness) { f32::from_be_bytes(a) } else { f32::from_le_bytes(a) };
            if got.to_bits() != v.to_bits() && !((got - v).abs() as f64 <= slack) && !(got.is_nan() && v.is_nan()) {
                return Err(format!("float sample is {got:e}, expected {v:e}"));
            }
        }
    }
    Ok(())
}
/// A plane of samples, three for colour.
type Planes = Vec<Vec<f32>>;
fn planes(f: &FrameOut, gray: bool) -> (Planes, Planes) {
    let c = f.f32s(0);
    let n = if gray { 1 } else { 3 };
    let col = (0..n).map(|k| c.iter().skip(k).step_by(n).copied().collect()).collect();
    (col, (1..f.bufs.len()).map(|i| f.f32s(i)).collect())
}
fn profile(o: &Outcome) -> Option<&str> {
    o.info.as_ref().and_then(|i| i.split(" | ").nth(2))
}
fn srgb(v: f64) -> f64 {
    let a = v.abs();
    let r = if a <= 0.0031308 { a * 12.92 } else { 1.055 * a.powf(1.0 / 2.4) - 0.055 };
    r.copysign(v)
}
/// The same alpha channel is part of the colour output, converted, and also wanted separately.
fn alpha_twice(m: &Meta, f: &JxlPixelFormat) -> bool {
    let converted = !matches!(f.color_data_format, None | Some(JxlDataFormat::F32 { .. }));
    m.alpha.is_some_and(|a| f.color_type.has_alpha() && converted && f.extra_channel_format[a.0].is_some())
}
fn refused(o: &Outcome) -> bool {
    matches!(&o.end, End::Error(e) if e.starts_with("PipelineChannelTypeMismatch"))
}
/// Decodes in the given format and compares every sample of every frame with the float reference
/// (a decode in `FmtSel::F32All` without premultiplication).
pub fn check_format(data: &[u8], opts: &Opts, m: &Meta, full: &Outcome, fmt: &JxlPixelFormat, pad: usize, fill: u8) -> CaseResult {
    let mut s = Script::new(data, data.len());
    let mut p = Plan::new(opts).fmt(FmtSel::Explicit(fmt.clone()));
    p.pad = pad;
    p.fill = fill;
    let o = run(&mut p, &mut s, &[data.len()]);
    let ct = fmt.color_type;
    if ct.is_grayscale() && !m.gray {
        return match &o.end {
            End::Error(_) => Ok(Obs::new(1, o.steps)),
            e => Err(format!("a colour image decodes to grayscale: {e:?}")),
        };
    }
    if refused(&o) && alpha_twice(m, fmt) {
        // documented as unsupported (a clean error)
        return Ok(Obs::new(2, o.steps));
    }
    if o.end.class() != full.end.class() {
        return Err(format!("ends with {:?}, as floats with {:?}", o.end, full.end));
    }
    if o.frames.len() != full.frames.len() {
        return Err("number of frames differs".into());
    }
    // integer outputs of images whose own profile cannot be produced are sRGB, float ones linear
    let curve = profile(&o) != profile(full);
    if curve && full.frames.len() > 1 {
        return Ok(Obs::new(o.digest(), o.steps));
    }
    let slack = if curve { 2e-5 } else { 0.0 };
    let mut samples = 0u64;
    for (fi, (f, r)) in o.frames.iter().zip(&full.frames).enumerate() {
        if f.size != r.size || f.name != r.name || f.duration != r.duration {
            return Err(format!("frame {fi}: header differs"));
        }
        if f.skipped || r.skipped {
            continue;
        }
        let (mut col, ecs) = planes(r, m.gray);
        if curve {
            col.iter_mut().flatten().for_each(|v| *v = srgb(*v as f64) as f32);
        }
        if opts.premultiply && ct.has_alpha() && fmt.color_data_format.is_some() {
            if let Some((a, false)) = m.alpha {
                for c in &mut col {
                    for (v, a) in c.iter_mut().zip(&ecs[a]) {
                        *v *= a;
                    }
                }
            }
        }
        let mut outs: Vec<(JxlDataFormat, Vec<Option<&Vec<f32>>>, bool)> = vec![];
        if let Some(df) = fmt.color_data_format {
            let mut v: Vec<Option<&Vec<f32>>> = if ct.is_grayscale() {
                vec![Some(&col[0])]
            } else {
                (0..3).map(|k| Some(&col[if m.gray { 0 } else { k }])).collect()
            };
            if matches!(ct, JxlColorType::Bgr | JxlColorType::Bgra) {
                v.reverse();
            }
            if ct.has_alpha() {
                v.push(m.alpha.map(|a| &ecs[a.0]));
            }
            outs.push((df, v, m.unsure_clamp));
        }
        for (i, df) in fmt.extra_channel_format.iter().enumerate() {
            if let Some(df) = df {
                outs.push((*df, vec![Some(&ecs[i])], false));
            }
        }
        if outs.len() != f.bufs.len() {
            return Err(format!("frame {fi}: number of buffers differs"));
        }
        for (bi, ((df, chans, clamp), b)) in outs.iter().zip(&f.bufs).enumerate() {
            let (n, bs) = (chans.len(), df.bytes_per_sample());
            let row = f.size.0 * n * bs;
            let stride = row + pad;
            if b.len() != stride * f.size.1 {
                return Err("size of buffer".into());
            }
            for y in 0..f.size.1 {
                let r = &b[y * stride..][..stride];
                if r[row..].iter().any(|x| *x != fill) {
                    return Err(format!("frame {fi}: bytes outside row {y} of buffer {bi} were written"));
                }
                for x in 0..f.size.0 {
                    for (k, c) in chans.iter().enumerate() {
                        let q = &r[(x * n + k) * bs..][..bs];
                        let v = c.map(|c| c[y * f.size.0 + x]).unwrap_or(1.0);
                        // the components of a grayscale image shown as RGB may differ by rounding errors
                        let sl = slack + if m.gray && n >= 3 && (1..3).contains(&k) { 2e-6 } else { 0.0 };
                        sample_ok(df, q, v, *clamp, c.is_none(), if bi == 0 { sl } else { 0.0 })
                            .map_err(|e| format!("frame {fi}, buffer {bi} ({ct:?}), pixel ({x},{y}), component {k}: {e}"))?;
                        samples += 1;
                    }
                }
            }
        }
    }
    Ok(Obs::new(o.digest() ^ samples, o.steps))
}
fn types() -> [JxlColorType; 6] {
    use JxlColorType::*;
    [Grayscale, GrayscaleAlpha, Rgb, Rgba, Bgr, Bgra]
}
pub fn data_formats(all: bool) -> Vec<JxlDataFormat> {
    let mut v = vec![];
    let es = [Endianness::LittleEndian, Endianness::BigEndian];
    for b in 1..=8 {
        if all || matches!(b, 1 | 5 | 8) {
            v.push(JxlDataFormat::U8 { bit_depth: b });
        }
    }
    for b in 1..=16 {
        if all || matches!(b, 10 | 16) {
            for e in es {
                v.push(JxlDataFormat::U16 { endianness: e, bit_depth: b });
            }
        }
    }
    for e in es {
        v.push(JxlDataFormat::F16 { endianness: e });
        v.push(JxlDataFormat::F32 { endianness: e });
    }
    v
}
/// All pixel formats in the exploration for an image with `ecs` extra channels.
fn formats(ecs: usize, all: bool) -> Vec<JxlPixelFormat> {
    let dfs = data_formats(all);
    let mut v = vec![];
    let mut push = |t, c, e: Vec<Option<JxlDataFormat>>| {
        let f = JxlPixelFormat { color_type: t, color_data_format: c, extra_channel_format: e };
        if !v.contains(&f) && (f.color_data_format.is_some() || f.extra_channel_format.iter().any(|e| e.is_some())) {
            v.push(f)
        }
    };
    for t in types() {
        for df in &dfs {
            push(t, Some(*df), vec![None; ecs]);
            push(t, Some(*df), vec![Some(*df); ecs]);
            if ecs > 0 {
                // other types for the extra channels, each one alone, alternating
                for (j, d2) in dfs.iter().enumerate() {
                    if (j + t as usize) % if all { 3 } else { 4 } == 0 {
                        push(t, Some(*df), vec![Some(*d2); ecs]);
                        push(t, Some(*df), (0..ecs).map(|i| (i % 2 == 0).then_some(*d2)).collect());
                        push(t, Some(*df), (0..ecs).map(|i| (i + 1 == ecs).then_some(*d2)).collect());
                    }
                }
            }
        }
        for df in &dfs {
            push(t, None, vec![Some(*df); ecs]);
            push(t, None, (0..ecs).map(|i| (i % 2 == 1).then_some(*df)).collect());
        }
    }
    v
}
fn fmt_name(f: &JxlPixelFormat) -> String {
    let d = |f: &Option<JxlDataFormat>| match f {
        None => "-".to_string(),
        Some(JxlDataFormat::U8 { bit_depth }) => format!("u8.{bit_depth}"),
        Some(JxlDataFormat::U16 { bit_depth, endianness }) => format!("u16{}.{bit_depth}", if be(*endianness) { "be" } else { "le" }),
        Some(JxlDataFormat::F16 { endianness }) => format!("f16{}", if be(*endianness) { "be" } else { "le" }),
        Some(JxlDataFormat::F32 { endianness }) => format!("f32{}", if be(*endianness) { "be" } else { "le" }),
    };
    let e: Vec<String> = f.extra_channel_format.iter().map(d).collect();
    format!("{:?}-{}+{}", f.color_type, d(&f.color_data_format), e.join(","))
}
/// An image of one lossless frame.
pub fn plain(img: &Image, value: &mut dyn FnMut(usize, usize, usize) -> i32) -> Vec<u8> {
    let o = ModOpts::new(Tree::single(if img.depth.float { 0 } else { 5 }), img.depth.bits);
    simple(img, &Frame::new(img), &o, &mut |_, c, x, y| value(c, x, y)).0
}
pub fn sized(w: usize, h: usize, gray: bool, depth: Depth, ecs: Vec<Ec>) -> Image {
    let mut i = Image::new(w as u32, h as u32);
    i.m16 = depth.bits <= 12 && !depth.float;
    i.depth = depth;
    if gray {
        i.color = Color::gray();
    }
    i.ecs = ecs;
    i
}
/// Floats around every rounding and clamping threshold of the output types.
fn float_values(what: &str) -> Vec<f32> {
    let mut v = vec![];
    let around = |x: f64, v: &mut Vec<f32>| {
        let f = x as f32;
        for d in [-1i32, 0, 1] {
            if f != 0.0 {
                v.push(f32::from_bits((f.to_bits() as i32 + d) as u32));
            }
        }
        v.push(f);
    };
    match what {
        "u8" => {
            for b in [1, 2, 3, 5, 7, 8u32] {
                let m = ((1 << b) - 1) as f64;
                for k in 0..=(1 << b) {
                    around(k as f64 / m, &mut v);
                    around((k as f64 + 0.5) / m, &mut v);
                    around((k as f64 + 0.495) / m, &mut v);
                }
            }
        }
        "u16" => {
            for b in [10, 16u32] {
                let m = ((1 << b) - 1) as f64;
                for k in (0..=(1u32 << b)).step_by(if b == 16 { 13 } else { 1 }) {
                    around((k as f64 + 0.5) / m, &mut v);
                    v.push((k as f64 / m) as f32);
                }
            }
        }
        "f16" => {
            for h in (0..0x7c00u32).step_by(1) {
                // halfway between h and h+1
                let val = |h: u32| if h < 0x400 { h as f64 * 2f64.powi(-24) } else { (1024 + (h & 0x3ff)) as f64 * 2f64.powi((h >> 10) as i32 - 25) };
                around((val(h) + val(h + 1)) / 2.0, &mut v);
                v.push(-val(h) as f32);
            }
        }
        _ => {
            for x in [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-40, 1e-30, 1e30, 65504.0, 65519.0, 65520.0, 65536.0, 3e38, 255.0, 0.999999] {
                v.push(x);
                v.push(-x);
            }
            v.extend([f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, f32::EPSILON]);
        }
    }
    v
}
fn float_file(what: &str, w: usize, ecs: Vec<Ec>) -> Vec<u8> {
    let v = float_values(what);
    let img = sized(w, v.len().div_ceil(w), true, Depth::float(32, 8), ecs);
    plain(&img, &mut |c, x, y| v[(y * w + x + c * 37) % v.len()].to_bits() as i32)
}
fn alpha(d: &Depth, assoc: bool) -> Ec {
    let mut e = Ec::alpha();
    e.depth = d.clone();
    e.assoc = assoc;
    e
}
fn ec_of(ty: u32, d: &Depth) -> Ec {
    let mut e = Ec::of(ty);
    e.depth = d.clone();
    e
}
/// Generated images for the format checks: (name, bytes).
fn images(quick: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let smooth = |bits: u32| {
        let m = ((1u64 << bits) - 1) as u32;
        move |c: usize, x: usize, y: usize| ((hash3(x as u32 + 7, y as u32, c as u32) >> 3) & m) as i32
    };
    for gray in [false, true] {
        for (dn, d) in [("8", Depth::int(8)), ("12", Depth::int(12)), ("3", Depth::int(3))] {
            let kinds: Vec<(&str, Vec<Ec>)> = vec![
                ("n", Vec::<Ec>::new()),
                ("a", vec![alpha(&d, false)]),
                ("p", vec![alpha(&d, true)]),
                ("xay", vec![ec_of(1, &d), alpha(&d, false), ec_of(16, &d), alpha(&d, false)]),
            ];
            for (kn, ecs) in kinds {
                if quick && (dn == "3" && kn != "a") {
                    continue;
                }
                let img = sized(11, 3, gray, d.clone(), ecs);
                v.push((format!("{}{dn}{kn}", if gray { "gray" } else { "rgb" }), plain(&img, &mut smooth(d.bits))));
            }
        }
    }
    for what in ["u8", "u16", "f16", "misc"] {
        v.push((format!("floats-{what}"), float_file(what, 200, vec![])));
    }
    v
}

pub fn c10(ctx: &Ctx) {
    ctx.set_rule("images (generated: every width up to 70, gray/RGB, 3/8/12-bit and float samples at every rounding and clamping threshold, no/straight/associated/two alphas and other extra channels; and seed files) x colour types x data formats (8-bit depths 1..8, 16-bit depths 1..16 and both byte orders, half, float, ignored) x extra-channel choices x row paddings and fills; every sample against the independent conversion of the float decode, every byte outside the rows against the fill; distinct = (image, format, decoded samples)");
    ctx.assume("8-bit output may add a fixed dither pattern of less than half a step: samples must be exact where the float value is (almost) an integer, and within one step elsewhere");
    let opts = Opts::default();
    // 1. full product on small generated images
    let imgs = images(ctx.quick());
    for premul in [false, true] {
        let o = Opts { premultiply: premul, ..opts.clone() };
        let mut jobs = vec![];
        for (i, im) in imgs.iter().enumerate() {
            let m = meta(&im.1, &opts).unwrap();
            if premul && (m.alpha.is_none() || im.0.starts_with("floats")) {
                continue;
            }
            for f in formats(m.ecs, !ctx.quick() || m.ecs < 2 && !premul) {
                for (pad, fill) in [(0, 0u8), (5, 0xA5)] {
                    jobs.push((i, m.clone(), f.clone(), pad, fill));
                }
            }
        }
        let full: Vec<Outcome> = imgs.iter().map(|i| oneshot(&i.1, &opts, FmtSel::F32All)).collect();
        ctx.par(jobs.len(), |k| {
            let (i, m, f, pad, fill) = &jobs[k];
            let im = &imgs[*i];
            ctx.case(&format!("image/{}/{}{}/pad{pad}", im.0, fmt_name(f), if premul { "/premultiply" } else { "" }), || {
                check_format(&im.1, &o, m, &full[*i], f, *pad, *fill)
            });
        });
    }
    // the same bytes whatever the order of the components
    let mut jobs = vec![];
    for (i, im) in imgs.iter().enumerate() {
        for df in data_formats(!ctx.quick()) {
            jobs.push((i, im, df));
        }
    }
    ctx.par(jobs.len(), |k| {
        let (_, im, df) = &jobs[k];
        let f = |t| JxlPixelFormat { color_type: t, color_data_format: Some(*df), extra_channel_format: vec![] };
        ctx.case(&format!("order/{}/{}", im.0, fmt_name(&f(JxlColorType::Rgb))), || orders(&im.1, &opts, *df));
    });
    // 2. every width: vector tails
    let dfs = data_formats(false);
    let maxw = ctx.pick(70, 300);
    ctx.par(maxw * 2, |k| {
        let (w, gray) = (k / 2 + 1, k % 2 == 0);
        for kind in 0..3 {
            let d = Depth::int([8, 10, 8][kind]);
            let ecs = if kind == 2 { vec![] } else { vec![alpha(&d, false)] };
            let m8 = (1u32 << d.bits) - 1;
            let img = sized(w, 2, gray, d.clone(), ecs.clone());
            let data = plain(&img, &mut |c, x, y| (hash3(x as u32, y as u32 + 9, c as u32) & m8) as i32);
            let Some(m) = meta(&data, &opts) else { return ctx.violation(&format!("width/{w}"), "no image info") };
            let full = oneshot(&data, &opts, FmtSel::F32All);
            for t in types() {
                if t.is_grayscale() && !gray {
                    continue;
                }
                for df in &dfs {
                    for sep in [false, true] {
                        if sep && ecs.is_empty() || sep && t.has_alpha() {
                            continue;
                        }
                        let f = JxlPixelFormat { color_type: t, color_data_format: Some(*df), extra_channel_format: vec![sep.then_some(*df); ecs.len()] };
                        for (pad, fill) in [(0usize, 255u8), (3, 0x5A)] {
                            ctx.case(&format!("width/{w}-{gray}-{kind}/{}/pad{pad}", fmt_name(&f)), || {
                                check_format(&data, &opts, &m, &full, &f, pad, fill)
                            });
                        }
                    }
                }
            }
        }
    });
    // 3. seed files: all types, several formats
    let ss = seeds::valid(ctx, ctx.pick(10_000, 60_000), ctx.pick(6_000, 60_000), &opts);
    let mut jobs: Vec<(&Seed, Meta, JxlPixelFormat, usize, bool)> = vec![];
    for s in &ss {
        let Some(m) = meta(&s.data, &opts) else { continue };
        for (k, f) in formats(m.ecs, false).into_iter().enumerate() {
            if f.color_type.is_grayscale() && !m.gray {
                continue;
            }
            let step = 1 + s.cost as usize / ctx.pick(100, 1500);
            if k % step == 0 {
                jobs.push((s, m.clone(), f, k % 4, k / step % 2 == 1 && m.alpha.is_some()));
            }
        }
    }
    ctx.par(jobs.len(), |k| {
        let (s, m, f, pad, premul) = &jobs[k];
        let o = Opts { premultiply: *premul, ..opts.clone() };
        ctx.case(&format!("seed/{}/{}{}/pad{pad}", s.name, fmt_name(f), if *premul { "/premultiply" } else { "" }), || {
            check_format(&s.data, &o, m, &s.full, f, *pad, 0xC3)
        });
    });
    ctx.note(format!("{} seed files, {} generated images, widths to {maxw}", ss.len(), imgs.len()));
    ctx.sample(format!("e.g. {}", fmt_name(&formats(2, false)[40])));
    for s in ss.iter().filter(|s| s.cost < 3000) {
        let dfs = data_formats(false);
        ctx.par(dfs.len(), |k| {
            ctx.case(&format!("order/{}/{k}", s.name), || orders(&s.data, &opts, dfs[k]));
        });
    }
}
/// The bytes of a component are the same in every colour type.
fn orders(data: &[u8], opts: &Opts, df: JxlDataFormat) -> CaseResult {
    let m = meta(data, opts).ok_or("no image info")?;
    let bs = df.bytes_per_sample();
    let mut digest = 0;
    let mut base: Option<Outcome> = None;
    use JxlColorType::*;
    let list: &[JxlColorType] = if m.gray { &[Grayscale, GrayscaleAlpha] } else { &[Rgb, Bgr, Rgba, Bgra] };
    for t in list {
        let f = JxlPixelFormat { color_type: *t, color_data_format: Some(df), extra_channel_format: vec![None; m.ecs] };
        let o = oneshot(data, opts, FmtSel::Explicit(f));
        let n = t.samples_per_pixel();
        digest ^= o.digest().rotate_left(n as u32);
        let Some(b) = &base else {
            base = Some(o);
            continue;
        };
        let bn = list[0].samples_per_pixel();
        for (fa, fb) in o.frames.iter().zip(&b.frames) {
            for k in 0..bn {
                let ka = if matches!(t, Bgr | Bgra) { 2 - k } else { k };
                let p = |v: &Vec<u8>, n: usize, k: usize| -> Vec<u8> { v.chunks_exact(n * bs).flat_map(|c| c[k * bs..][..bs].to_vec()).collect() };
                if p(&fa.bufs[0], n, ka) != p(&fb.bufs[0], bn, k) {
                    return Err(format!("component {k} differs between {:?} and {t:?}", list[0]));
                }
            }
        }
    }
    Ok(Obs::batch(digest, 1, list.len() as u64))
}

/// Where pixel (x, y) of a w x h picture is shown (EXIF orientations 1..8).
pub fn shown_at(o: u32, x: usize, y: usize, w: usize, h: usize) -> (usize, usize) {
    match o {
        2 => (w - 1 - x, y),
        3 => (w - 1 - x, h - 1 - y),
        4 => (x, h - 1 - y),
        5 => (y, x),
        6 => (h - 1 - y, x),
        7 => (h - 1 - y, w - 1 - x),
        8 => (y, w - 1 - x),
        _ => (x, y),
    }
}
fn rearrange(o: u32, b: &[u8], px: usize, (w, h): (usize, usize)) -> Vec<u8> {
    let mut r = vec![0; b.len()];
    let ow = if o > 4 { h } else { w };
    for y in 0..h {
        for x in 0..w {
            let (p, q) = shown_at(o, x, y, w, h);
            r[(q * ow + p) * px..][..px].copy_from_slice(&b[(y * w + x) * px..][..px]);
        }
    }
    r
}
struct Reversed;
impl JxlParallelRunner for Reversed {
    fn run(&mut self, n: usize, f: &JxlParallelRunnerFun<'_>) -> jxl::error::Result<()> {
        for i in (0..n).rev() {
            f(i)?;
        }
        Ok(())
    }
}
/// Decodes with and without applying the orientation, with the pictures after every flush.
fn both(data: &[u8], o: u32, fmt: &Option<JxlPixelFormat>, chunk: usize, parallel: bool) -> CaseResult {
    let cuts: Vec<usize> = (1..=data.len().div_ceil(chunk)).map(|i| (i * chunk).min(data.len())).collect();
    let run1 = |adjust: bool| {
        let opts = Opts { adjust_orientation: adjust, ..Opts::default() };
        let mut partial: Vec<(usize, bool, Vec<Vec<u8>>)> = vec![];
        let mut rec = |f: usize, v: bool, _: &[Vec<u8>], b: &[Vec<u8>]| partial.push((f, v, b.to_vec()));
        let mut runner = Reversed;
        let out = {
            let mut p = Plan::new(&opts);
            if let Some(f) = fmt {
                p = p.fmt(FmtSel::Explicit(f.clone()));
            }
            p.flush = &|_| true;
            p.on_flush = Some(&mut rec);
            if parallel {
                p.runner = Some(&mut runner);
            }
            let mut s = Script::new(data, cuts[0]);
            run(&mut p, &mut s, &cuts[1..])
        };
        (out, partial)
    };
    let (a, pa) = run1(true);
    let (b, pb) = run1(false);
    if a.end.class() != b.end.class() || a.frames.len() != b.frames.len() || pa.len() != pb.len() {
        return Err(format!("with orientation {:?}, {} frames, {} flushes; without {:?}, {}, {}", a.end, a.frames.len(), pa.len(), b.end, b.frames.len(), pb.len()));
    }
    let same = |x: &[Vec<u8>], y: &[Vec<u8>], size: (usize, usize), what: &str| -> Result<(), String> {
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if p.len() != q.len() {
                return Err(format!("{what}: buffer sizes differ"));
            }
            let px = q.len() / (size.0 * size.1);
            let r = rearrange(o, q, px, size);
            if let Some(k) = r.iter().zip(p).position(|(a, b)| a != b) {
                let ow = if o > 4 { size.1 } else { size.0 };
                return Err(format!("{what}: buffer {i}: shown pixel ({},{}) is not the one at the rearranged position", k / px % ow, k / px / ow));
            }
        }
        Ok(())
    };
    for (i, (f, g)) in a.frames.iter().zip(&b.frames).enumerate() {
        let want = if o > 4 { (g.size.1, g.size.0) } else { g.size };
        if f.size != want {
            return Err(format!("frame {i}: size {:?} for orientation {o}, unoriented {:?}", f.size, g.size));
        }
        if !f.skipped && !g.skipped {
            same(&f.bufs, &g.bufs, g.size, &format!("frame {i}"))?;
        }
    }
    for (k, (p, q)) in pa.iter().zip(&pb).enumerate() {
        if (p.0, p.1) != (q.0, q.1) {
            return Err(format!("flush {k} returns {} with orientation, {} without", p.1, q.1));
        }
        same(&p.2, &q.2, b.frames[p.0].size, &format!("flush {k} in frame {}", p.0))?;
    }
    let size = |o: &Outcome| o.info.as_ref().map(|i| i.split(')').next().unwrap().trim_start_matches('(').to_string());
    if let (Some(x), Some(y)) = (size(&a), size(&b)) {
        let p = |s: &str| s.split(", ").map(|t| t.parse::<usize>().unwrap()).collect::<Vec<_>>();
        let (x, mut y) = (p(&x), p(&y));
        if o > 4 {
            y.reverse();
        }
        if x != y {
            return Err(format!("image size {x:?} for orientation {o}, unoriented (swapped if transposing) {y:?}"));
        }
    }
    Ok(Obs::batch(hash(&(a.digest(), b.digest(), pa.len())), a.steps + b.steps, 2))
}
pub fn c11(ctx: &Ctx) {
    ctx.set_rule("all 8 orientations x (every size up to a bound x gray/RGB/alpha; every generated file re-encoded with the orientation: animations, crops and blending, patches, splines, noise, upsampling, multi-group, progressive, subsampled; every seed file with an orientation) x output formats x one-shot or chunked with all flushes x sequential or reversed parallel runner; every final and partial picture must be exactly the rearranged picture of the unoriented decode; distinct = (picture, oriented picture, number of partial pictures)");
    let u8s = JxlDataFormat::U8 { bit_depth: 8 };
    let u16be = JxlDataFormat::U16 { endianness: Endianness::BigEndian, bit_depth: 16 };
    let f16 = JxlDataFormat::F16 { endianness: Endianness::LittleEndian };
    // 1. all small sizes
    let maxs = ctx.pick(7, 18);
    ctx.par(maxs * maxs, |k| {
        let (w, h) = (k % maxs + 1, k / maxs + 1);
        for o in 1..=8u32 {
            for kind in 0..4 {
                let d = Depth::int(if kind == 3 { 11 } else { 8 });
                let ecs = if kind == 1 || kind == 3 { vec![alpha(&d, false)] } else { vec![] };
                let n = ecs.len();
                let mut img = sized(w, h, kind >= 2, d.clone(), ecs);
                img.orientation = o;
                let data = plain(&img, &mut |c, x, y| (hash3(x as u32, y as u32 + 9, c as u32) & ((1 << d.bits) - 1)) as i32);
                let gray = kind >= 2;
                let t = |a: bool, b: bool| match (gray, a, b) {
                    (true, false, _) => JxlColorType::Grayscale,
                    (true, true, _) => JxlColorType::GrayscaleAlpha,
                    (false, false, false) => JxlColorType::Rgb,
                    (false, false, true) => JxlColorType::Bgr,
                    (false, true, _) => JxlColorType::Rgba,
                };
                let mk = |t, c, e| Some(JxlPixelFormat { color_type: t, color_data_format: c, extra_channel_format: vec![e; n] });
                let fmts = [
                    None,
                    mk(t(false, false), Some(u8s), Some(u8s)),
                    mk(t(true, false), Some(u8s), None),
                    mk(t(true, false), Some(u16be), None),
                    mk(t(false, true), Some(f16), Some(u16be)),
                    mk(t(true, false), Some(JxlDataFormat::f32()), None),
                ];
                for (fi, f) in fmts.iter().enumerate() {
                    if f.is_some() && (w + h + fi) % 2 == 0 && ctx.quick() {
                        continue;
                    }
                    ctx.case(&format!("size/{w}x{h}/o{o}/k{kind}/f{fi}"), || both(&data, o, f, data.len(), false));
                }
                if w == 1 && h < 4 || w < 4 && h == 1 || (w, h) == (5, 3) {
                    ctx.case(&format!("size/{w}x{h}/o{o}/k{kind}/chunks"), || both(&data, o, &None, 1, false));
                }
            }
        }
    });
    // 2. all generated files in all orientations
    for o in 2..=8u32 {
        let files = with_orientation(o, genfiles::files);
        ctx.par(files.len(), |k| {
            let (name, data) = &files[k];
            let opts = Opts { adjust_orientation: false, ..Opts::default() };
            let s = seeds::make(name, data.clone(), &opts);
            let Some(m) = meta(data, &opts) else { return };
            if !s.done() || s.cost > ctx.pick(15_000, 200_000) {
                return;
            }
            let n = m.ecs;
            let rgba = Some(JxlPixelFormat { color_type: if m.gray { JxlColorType::GrayscaleAlpha } else { JxlColorType::Rgba }, color_data_format: Some(u8s), extra_channel_format: vec![None; n] });
            let bgr16 = Some(JxlPixelFormat { color_type: if m.gray { JxlColorType::Grayscale } else { JxlColorType::Bgr }, color_data_format: Some(u16be), extra_channel_format: vec![Some(u8s); n] });
            for (fi, f) in [None, rgba, bgr16].iter().enumerate() {
                for parallel in [false, true] {
                    for parts in ctx.pick(vec![1, 4], vec![1, 2, 3, 5, 8, 13, 30]) {
                        if parts > 1 && ctx.quick() && (fi + parallel as usize) % 2 == 1 {
                            continue;
                        }
                        let chunk = data.len().div_ceil(parts);
                        ctx.case(&format!("gen/{name}/o{o}/f{fi}/p{}/c{parts}", parallel as u8), || both(data, o, f, chunk, parallel));
                    }
                }
            }
            // the stored picture does not depend on the orientation
            ctx.case(&format!("same/{name}/o{o}"), || {
                let plain = with_orientation(1, genfiles::files).into_iter().find(|f| f.0 == *name).unwrap().1;
                let a = oneshot(&plain, &opts, FmtSel::F32All);
                for (i, (x, y)) in a.frames.iter().zip(&s.full.frames).enumerate() {
                    if let Some(d) = frame_diff(x, y) {
                        return Err(format!("frame {i}: unoriented picture changes with the orientation: {d}"));
                    }
                }
                Ok(Obs::new(a.digest(), a.steps))
            });
        });
    }
    // 3. seed files that have an orientation
    let opts = Opts { adjust_orientation: false, ..Opts::default() };
    let ss = seeds::valid(ctx, ctx.pick(30_000, 300_000), ctx.pick(20_000, 300_000), &opts);
    ctx.par(ss.len(), |k| {
        let s = &ss[k];
        let o = s.full.info.as_ref().and_then(|i| orientation_of(i)).unwrap_or(0);
        if o == 0 || s.name.starts_with("gen:") {
            return;
        }
        for parallel in [false, true] {
            for parts in [1, 3, 7] {
                ctx.case(&format!("seed/{}/p{}/c{parts}", s.name, parallel as u8), || both(&s.data, o, &None, s.n().div_ceil(parts), parallel));
            }
        }
    });
}
fn orientation_of(info: &str) -> Option<u32> {
    let names = ["Identity", "FlipHorizontal", "Rotate180", "FlipVertical", "Transpose", "Rotate90Cw", "AntiTranspose", "Rotate90Ccw"];
    let w = info.split(' ').find_map(|t| names.iter().position(|n| *n == t))?;
    Some(w as u32 + 1)
}

/// Difference between two outcomes' frames, with a tolerance for float samples.
fn close(a: &Outcome, b: &Outcome, tol: f32) -> Result<(), String> {
    if a.end.class() != b.end.class() || a.frames.len() != b.frames.len() {
        return Err(format!("{:?} with {} frames vs {:?} with {}", a.end, a.frames.len(), b.end, b.frames.len()));
    }
    for (i, (f, g)) in a.frames.iter().zip(&b.frames).enumerate() {
        if tol == 0.0 {
            if let Some(d) = frame_diff(f, g) {
                return Err(format!("frame {i}: {d}"));
            }
            continue;
        }
        for c in 0..f.bufs.len() {
            for (k, (x, y)) in f.f32s(c).iter().zip(&g.f32s(c)).enumerate() {
                if !((x - y).abs() <= tol) && x.to_bits() != y.to_bits() {
                    return Err(format!("frame {i} buffer {c} sample {k}: {x} vs {y}"));
                }
            }
        }
    }
    Ok(())
}
/// Spot ink on the colour planes.
fn spotted(img: &Image, f: &FrameOut) -> Vec<f32> {
    let nc = img.colors();
    let mut c = f.f32s(0);
    for (i, e) in img.ecs.iter().enumerate() {
        if e.ty == 2 {
            let ink = f.f32s(i + 1);
            let sp: Vec<f32> = e.spot.iter().map(|h| from_f16(*h) as f32).collect();
            for (p, s) in ink.iter().enumerate() {
                let mix = sp[3] * s;
                for k in 0..nc {
                    let v = &mut c[p * nc + k];
                    *v = mix * sp[k] + (1.0 - mix) * *v;
                }
            }
        }
    }
    c
}
pub fn c26(ctx: &Ctx) {
    ctx.set_rule("every seed and generated file x all combinations of the decoding options (preview, spot colours, premultiply, high precision, intensity target, coalescing, sample limit): the frames must be those of the default decode except for the one aspect the option names, which is recomputed independently (spot ink mixing, colour times alpha, an additional first frame for the preview); distinct = (file, options, outcome)");
    let base = Opts::default();
    let ss = seeds::valid(ctx, ctx.pick(14_000, 100_000), ctx.pick(5_000, 100_000), &base);
    let plain: Vec<Outcome> = {
        let v = std::sync::Mutex::new(vec![None; ss.len()]);
        ctx.par(ss.len(), |i| {
            ctx.case_always(&format!("plain/{}", ss[i].name), || {
                let o = oneshot(&ss[i].data, &Opts { render_spot_colors: false, high_precision: false, ..base.clone() }, FmtSel::F32All);
                v.lock().unwrap()[i] = Some(o.clone());
                Ok(Obs::new(o.digest(), o.steps))
            });
        });
        let v = v.into_inner().unwrap();
        v.into_iter().zip(&ss).map(|(o, s)| o.unwrap_or_else(|| s.full.clone())).collect()
    };
    ctx.par(ss.len() * 64, |k| {
        let (s, low, bits) = (&ss[k / 64], &plain[k / 64], k % 64);
        let Some(m) = meta(&s.data, &base) else { return };
        let o = Opts {
            skip_preview: bits & 1 == 0,
            premultiply: bits & 2 != 0,
            high_precision: bits & 4 == 0,
            render_spot_colors: bits & 8 == 0,
            intensity: (bits & 16 != 0).then_some(if m.unsure_clamp { 255.0 } else { 1000.0 }),
            sample_limit: if bits & 32 != 0 { None } else { Some(39_999_999) },
            coalescing: bits & 32 == 0 || s.full.frames.len() > 1,
            ..base.clone()
        };
        if bits & 16 != 0 && m.unsure_clamp {
            return; // an intensity target may apply
        }
        ctx.case(&format!("options/{}/{bits}", s.name), || {
            let mut a = oneshot(&s.data, &o, FmtSel::F32All);
            let full = if o.high_precision && o.render_spot_colors || !m.spots && o.high_precision { &s.full } else { low };
            let d = a.digest();
            if !o.skip_preview && a.frames.len() == full.frames.len() + 1 {
                a.frames.remove(0);
            }
            // splines are drawn with less care in low precision; other combinations are exact
            let exact = o.high_precision && (o.render_spot_colors || !m.spots) || !o.high_precision && !o.render_spot_colors;
            if exact {
                close(&a, full, 0.0).map_err(|e| format!("{o:?} vs default: {e}"))?;
            } else if !m.spots {
                close(&a, full, 0.05).map_err(|e| format!("{o:?} vs default: {e}"))?;
            }
            Ok(Obs::new(hash(&(d, bits)), a.steps))
        });
    });
    // files without splines: precision changes nothing
    ctx.par(ss.len(), |i| {
        let s = &ss[i];
        // these draw splines (generated ones through their patches file)
        let lines = ["spline", "patches", "gen:jxl", "feat"].iter().any(|n| s.name.contains(n));
        let tol = if lines { 0.05 } else { 0.0 };
        ctx.case(&format!("precision/{}", s.name), || {
            let o = Opts { high_precision: false, ..base.clone() };
            let a = oneshot(&s.data, &o, FmtSel::F32All);
            close(&a, &s.full, tol).map_err(|e| format!("low vs high precision: {e}"))?;
            Ok(Obs::new(a.digest(), a.steps))
        });
    });
    // spot colours
    let inks: Vec<[f32; 4]> = vec![[1.0, 0.0, 0.0, 1.0], [0.25, 0.5, 0.75, 0.5], [0.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.125, 2.0]];
    let mut jobs = vec![];
    for gray in [false, true] {
        for n in 1..=2usize {
            for a in 0..inks.len() {
                for b in 0..if n == 2 { inks.len() } else { 1 } {
                    for alpha_at in 0..=2usize {
                        for frames in 1..=2usize {
                            jobs.push((gray, n, a, b, alpha_at, frames));
                        }
                    }
                }
            }
        }
    }
    ctx.par(jobs.len(), |k| {
        let (gray, n, a, b, alpha_at, frames) = jobs[k];
        ctx.case(&format!("spot/{:?}", jobs[k]), || {
            let d = Depth::int(8);
            let mut ecs: Vec<Ec> = [a, b][..n]
                .iter()
                .map(|i| {
                    let mut e = ec_of(2, &d);
                    e.spot = inks[*i].map(|v| to_f16(v));
                    e
                })
                .collect();
            match alpha_at {
                1 => ecs.insert(0, alpha(&d, false)),
                2 => ecs.push(alpha(&d, false)),
                _ => {}
            }
            let img = sized(13, 5, gray, d, ecs);
            let img = if frames == 2 { genfiles::anim(img) } else { img };
            let fr: Vec<Frame> = (0..frames)
                .map(|i| {
                    let mut f = Frame::new(&img);
                    f.is_last = i + 1 == frames;
                    f.duration = (frames > 1) as u32;
                    if i == 0 && frames == 2 {
                        f.save_as = 1;
                    }
                    if i == 1 {
                        // the ink must not be in the stored picture: blend onto it
                        f.crop = Some((2, 1, 7, 3));
                        f.blend.source = 1;
                        f.ec_blend.iter_mut().for_each(|b| b.source = 1);
                    }
                    f
                })
                .collect();
            let mut bw = crate::enc::Bw::new();
            img.write(&mut bw);
            for (i, f) in fr.iter().enumerate() {
                let o = ModOpts::new(Tree::single(5), 8);
                let nc = img.colors();
                let (secs, _) = modular_frame(&img, f, &o, None, &mut |_, c, x, y| {
                    let h = hash3(x as u32, y as u32, (c + 10 * i) as u32);
                    if c >= nc { [0, 255, (h >> 8 & 255) as i32][(h % 3) as usize] } else { (h & 255) as i32 }
                });
                assemble(&img, f, &secs, None, &mut bw);
            }
            let off = oneshot(&bw.bytes, &Opts { render_spot_colors: false, ..base.clone() }, FmtSel::F32All);
            let on = oneshot(&bw.bytes, &base, FmtSel::F32All);
            if on.end != End::Done || on.frames.len() != frames || off.frames.len() != frames {
                return Err(format!("does not decode: {:?}", on.end));
            }
            for (i, (f, g)) in on.frames.iter().zip(&off.frames).enumerate() {
                if f.bufs[1..] != g.bufs[1..] {
                    return Err(format!("frame {i}: rendering spot colours changes extra channels"));
                }
                let want = spotted(&img, g);
                for (p, (x, y)) in f.f32s(0).iter().zip(&want).enumerate() {
                    if (x - y).abs() > 1e-5 {
                        return Err(format!("frame {i} colour sample {p} is {x}, mixing the ink gives {y}"));
                    }
                }
            }
            // integer colours without ink are exact in both
            Ok(Obs::batch(hash(&(on.digest(), off.digest())), on.steps + off.steps, 2))
        });
    });
    // premultiplication: every arrangement of up to three extra channels
    let kinds = [(0u32, false), (0, true), (1, false)];
    let mut arr: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..3 {
        let add: Vec<Vec<usize>> = arr.iter().flat_map(|a| (0..kinds.len()).map(|k| [&a[..], &[k]].concat())).collect();
        for a in add {
            if !arr.contains(&a) {
                arr.push(a);
            }
        }
    }
    let mut jobs = vec![];
    for a in &arr {
        for gray in [false, true] {
            for (ti, ct) in [JxlColorType::Rgb, JxlColorType::Rgba, JxlColorType::Bgra, JxlColorType::Grayscale, JxlColorType::GrayscaleAlpha].into_iter().enumerate() {
                if ct.is_grayscale() && !gray {
                    continue;
                }
                for frames in 1..=2usize {
                    for keep in [false, true] {
                        jobs.push((a.clone(), gray, ti, ct, frames, keep));
                    }
                }
            }
        }
    }
    ctx.par(jobs.len(), |k| {
        let (a, gray, ti, ct, frames, keep) = &jobs[k];
        ctx.case(&format!("premultiply/{a:?}/gray={gray}/type{ti}/frames{frames}/keep={keep}"), || {
            let d = Depth::int(8);
            let ecs: Vec<Ec> = a
                .iter()
                .map(|k| {
                    let mut e = ec_of(kinds[*k].0, &d);
                    e.assoc = kinds[*k].1;
                    e
                })
                .collect();
            let mut img = sized(37, 5, *gray, d, ecs);
            if *frames > 1 {
                img.anim = Some(Anim { num: 10, den: 1, loops: 0, timecodes: false });
            }
            let mut bw = crate::enc::Bw::new();
            img.write(&mut bw);
            for i in 0..*frames {
                let mut f = Frame::new(&img);
                f.is_last = i + 1 == *frames;
                f.duration = (*frames > 1) as u32;
                if i == 1 {
                    // on top of the first one, which must have been stored straight
                    f.crop = Some((3, 1, 29, 3));
                    f.blend = Blend { mode: 1, alpha: 0, clamp: false, source: 1 };
                    f.ec_blend = vec![Blend { mode: 1, alpha: 0, clamp: false, source: 1 }; a.len()];
                } else if *frames > 1 {
                    f.save_as = 1;
                }
                let o = ModOpts::new(Tree::single(5), 8);
                let (secs, _) = modular_frame(&img, &f, &o, None, &mut |_, c, x, y| (hash3(x as u32, y as u32, (c + 10 * i) as u32) % 128) as i32);
                assemble(&img, &f, &secs, None, &mut bw);
            }
            let alpha = a.iter().position(|k| kinds[*k].0 == 0);
            let ec = Some(JxlDataFormat::f32());
            let fmt = JxlPixelFormat {
                color_type: *ct,
                color_data_format: ec,
                extra_channel_format: (0..a.len()).map(|i| if *keep && !(ct.has_alpha() && Some(i) == alpha) { ec } else { None }).collect(),
            };
            let off = oneshot(&bw.bytes, &base, FmtSel::Explicit(fmt.clone()));
            let on = oneshot(&bw.bytes, &Opts { premultiply: true, ..base.clone() }, FmtSel::Explicit(fmt));
            if on.end != End::Done || on.frames.len() != *frames || off.frames.len() != *frames {
                return Err(format!("does not decode: {:?} {:?}", on.end, off.end));
            }
            let applies = ct.has_alpha() && alpha.is_some_and(|i| !kinds[a[i]].1);
            let n = ct.samples_per_pixel();
            for (i, (f, g)) in on.frames.iter().zip(&off.frames).enumerate() {
                if f.bufs[1..] != g.bufs[1..] {
                    return Err(format!("frame {i}: premultiplication changes extra channels"));
                }
                let straight = g.f32s(0);
                for (p, x) in f.f32s(0).iter().enumerate() {
                    let y = if applies && p % n != n - 1 { straight[p] * straight[p / n * n + n - 1] } else { straight[p] };
                    if (x - y).abs() > 1e-6 {
                        return Err(format!("frame {i}: premultiplied sample {p} is {x}, colour times alpha is {y} (applies: {applies})"));
                    }
                }
            }
            Ok(Obs::batch(hash(&(on.digest(), off.digest())), on.steps + off.steps, 2))
        });
    });
}
