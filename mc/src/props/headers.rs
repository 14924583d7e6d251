//! C15: image headers, frame headers and section tables for every field value, alone and in pairs, in every way the
//! format has to write them.
use super::formats::from_f16;
use crate::dec::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::enc::{Bw, D::*};
use crate::engine::*;
use jxl::bit_reader::BitReader;
use jxl::headers::color_encoding::*;
use jxl::headers::encodings::UnconditionalCoder;
use jxl::headers::frame_header::{BlendingInfo, FrameHeader};
use jxl::headers::toc::*;
use jxl::headers::{FileHeader, JxlHeader};

type Res = Result<u64, String>;
fn h(x: u16) -> f32 {
    from_f16(x) as f32
}
fn finite(x: u16) -> bool {
    x & 0x7c00 != 0x7c00
}
macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = (&$got, &$want);
        if *g != *w {
            return Err(format!("{}: read {:?}, written {:?}", $what, g, w));
        }
    }};
}
macro_rules! bits_same {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w): (&[f32], &[f32]) = (&$got, &$want);
        if g.len() != w.len() || g.iter().zip(w).any(|(a, b)| a.to_bits() != b.to_bits()) {
            return Err(format!("{}: read {:?}, written {:?}", $what, g, w));
        }
    }};
}

// ------------------------------------------------------------------------------------------ image headers
fn depth_ok(d: &Depth) -> bool {
    if d.float {
        let m = d.bits as i32 - d.exp as i32 - 1;
        (2..=8).contains(&d.exp) && (2..=23).contains(&m)
    } else {
        d.bits <= 31
    }
}
fn ec_ok(e: &Ec) -> bool {
    depth_ok(&e.depth) && e.dim_shift <= 3 && e.ty <= 16 && (e.ty != 2 || e.spot.iter().all(|x| finite(*x)))
}
fn tone_ok(t: &Tone) -> bool {
    let (i, m, l) = (h(t.intensity), h(t.min_nits), h(t.linear_below));
    [t.intensity, t.min_nits, t.linear_below].iter().all(|x| finite(*x)) && i > 0.0 && m >= 0.0 && m <= i && l >= 0.0 && !(t.relative && l > 1.0)
}
fn image_ok(i: &Image) -> bool {
    depth_ok(&i.depth)
        && i.ecs.iter().all(ec_ok)
        && i.ecs.len() <= 256
        && tone_ok(&i.tone)
        && color_ok(&i.color)
        && i.opsin.iter().flatten().all(|x| finite(*x))
        && i.kern.iter().flatten().flatten().all(|x| finite(*x))
}
fn color_ok(c: &Color) -> bool {
    c.icc || (c.space < 2 && [1, 2, 10, 11].contains(&c.wp) && (c.space == 1 || [1, 2, 9, 11].contains(&c.prim)) && c.intent < 4 && match c.tf {
        Tf::Gamma(g) => (g as f32) * 1e-7 <= 1.0 && (g as f64) * 1e-7 * 8192.0 >= 1.0,
        Tf::Named(n) => [1, 8, 13, 16, 17, 18].contains(&n),
    })
}
fn written(img: &Image, f: Option<(usize, usize)>, f2: Option<(usize, usize)>) -> Bw {
    let mut bw = Bw { force: f, force2: f2, ..Bw::new() };
    img.write(&mut bw);
    bw
}
fn same_depth(what: &str, g: &jxl::headers::bit_depth::BitDepth, d: &Depth) -> Result<(), String> {
    same!(format!("{what} float"), g.floating_point_sample(), d.float);
    same!(format!("{what} bits"), g.bits_per_sample(), d.bits);
    same!(format!("{what} exponent bits"), g.exponent_bits_per_sample(), if d.float { d.exp } else { 0 });
    Ok(())
}
fn read_image(bw: &Bw, img: &Image) -> Result<Option<FileHeader>, String> {
    // Other data follows directly.
    let mut b = bw.clone();
    b.u(7, 0x55);
    b.bytes.extend([0xff; 9]);
    let mut br = BitReader::new(&b.bytes);
    match FileHeader::read(&mut br) {
        Ok(f) => {
            if !image_ok(img) {
                return Err("a header with values outside the limits was accepted".into());
            }
            same!("length of the header in bits", br.total_bits_read(), bw.nbits);
            Ok(Some(f))
        }
        Err(e) if image_ok(img) => Err(format!("a legal header was refused: {e:?}")),
        Err(_) => Ok(None),
    }
}
fn image_case(img: &Image, f: Option<(usize, usize)>, f2: Option<(usize, usize)>) -> Res {
    let bw = written(img, f, f2);
    let Some(fh) = read_image(&bw, img)? else { return Ok(1) };
    let m = &fh.image_metadata;
    same!("size", (fh.size.xsize(), fh.size.ysize()), (img.w, img.h));
    same!("orientation", m.orientation as u32, img.orientation);
    same!("intrinsic size", m.intrinsic_size.as_ref().map(|s| (s.xsize(), s.ysize())), img.intrinsic);
    same!("preview", m.preview.as_ref().map(|s| (s.xsize(), s.ysize())), img.preview);
    same!(
        "animation",
        m.animation.as_ref().map(|a| (a.tps_numerator, a.tps_denominator, a.num_loops, a.have_timecodes)),
        img.anim.as_ref().map(|a| (a.num, a.den, a.loops, a.timecodes))
    );
    same_depth("image", &m.bit_depth, &img.depth)?;
    same!("16 bits are enough", m.modular_16bit_sufficient, img.m16);
    same!("number of extra channels", m.extra_channel_info.len(), img.ecs.len());
    for (i, (g, e)) in m.extra_channel_info.iter().zip(&img.ecs).enumerate() {
        same!(format!("type of extra channel {i}"), g.ec_type as u32, e.ty);
        same_depth(&format!("extra channel {i}"), &g.bit_depth(), &e.depth)?;
        same!(format!("shift of extra channel {i}"), g.dim_shift(), e.dim_shift);
        same!(format!("associated {i}"), g.alpha_associated(), e.ty == 0 && e.assoc);
        match g.spot_color {
            Some(s) => bits_same!(format!("spot colour {i}"), s, e.spot.map(h)),
            None => same!(format!("spot colour {i}"), false, e.ty == 2),
        }
    }
    same!("xyb", m.xyb_encoded, img.xyb);
    let (c, w) = (&m.color_encoding, &img.color);
    same!("icc", c.want_icc, w.icc);
    same!("colour space", c.color_space as u32, w.space);
    if !w.icc {
        same!("white point", c.white_point as u32, w.wp);
        if w.wp == 2 {
            same!("white", (c.white.x, c.white.y), w.wp_xy);
        }
        if w.space != 1 {
            same!("primaries", c.primaries as u32, w.prim);
            if w.prim == 2 {
                for k in 0..3 {
                    same!("primary", (c.custom_primaries[k].x, c.custom_primaries[k].y), w.prim_xy[k]);
                }
            }
        }
        match w.tf {
            Tf::Gamma(g) => same!("gamma", (c.tf.have_gamma, c.tf.gamma), (true, g)),
            Tf::Named(n) => same!("transfer function", (c.tf.have_gamma, c.tf.transfer_function as u32), (false, n)),
        }
        same!("intent", c.rendering_intent as u32, w.intent);
    }
    let t = &m.tone_mapping;
    bits_same!("tone mapping", [t.intensity_target, t.min_nits, t.linear_below], [h(img.tone.intensity), h(img.tone.min_nits), h(img.tone.linear_below)]);
    same!("relative", t.relative_to_max_display, img.tone.relative);
    if img.xyb && let Some(o) = &img.opsin {
        let g = &fh.transform_data.opsin_inverse_matrix;
        let got: Vec<f32> = g.inverse_matrix.iter().chain(&g.opsin_biases).chain(&g.quant_biases).copied().collect();
        bits_same!("opsin", got[..], o.map(h));
    }
    let d = &fh.transform_data;
    for (k, g) in [&d.weights2[..], &d.weights4[..], &d.weights8[..]].into_iter().enumerate() {
        match &img.kern[k] {
            Some(w) => bits_same!("upsampling weights", g, w.iter().map(|x| h(*x)).collect::<Vec<_>>()[..]),
            None => {
                // the defaults: a weight set of a flat picture sums to one
                same!("number of weights", g.len(), [15, 55, 210][k]);
            }
        }
    }
    Ok(hash(&(bw.nbits, &bw.bytes)))
}
type Mut<T> = (String, Box<dyn Fn(&mut T) + Sync + Send>);
fn m<T>(name: impl Into<String>, f: impl Fn(&mut T) + Sync + Send + 'static) -> Mut<T> {
    (name.into(), Box::new(f))
}
fn ext_values() -> Vec<Vec<(u32, Vec<bool>)>> {
    let some = |n: usize| (0..n).map(|i| i % 3 != 1).collect::<Vec<bool>>();
    vec![
        vec![(0, vec![])],
        vec![(0, some(1))],
        vec![(3, some(16)), (5, some(17))],
        vec![(63, some(300))],
        vec![(1, some(273)), (2, vec![]), (40, some(5000))],
    ]
}
fn names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [1usize, 15, 16, 47, 48, 200, 1071].iter().map(|n| (0..*n).map(|i| b'a' + (i % 26) as u8).collect()).collect();
    v.push("zwölf 十二 🎉".as_bytes().to_vec());
    v.push(vec![0, 1, 127]);
    v
}
fn sizes() -> Vec<(u32, u32)> {
    let dims = [1u32, 2, 3, 7, 8, 9, 16, 64, 100, 255, 256, 257, 264, 512, 513, 8192, 8193, 8704, 262144, 262145, 270336, 270337, 1 << 30];
    let mut v: Vec<(u32, u32)> = vec![];
    for &y in &dims {
        for (a, b) in [(1u64, 1u64), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)] {
            let x = y as u64 * a / b;
            for x in [x, x.saturating_sub(1), x + 1] {
                if x > 0 && x <= 1 << 30 {
                    v.push((x as u32, y));
                }
            }
        }
        v.push((5, y));
        v.push((y, 5));
        v.push((y, 40));
    }
    v.sort();
    v.dedup();
    v
}
/// Values of each part of the image header.
fn image_fields() -> Vec<Vec<Mut<Image>>> {
    let mut g: Vec<Vec<Mut<Image>>> = vec![];
    g.push([(8u32, 8u32), (256, 256), (257, 8), (1, 1), (640, 480), (1920, 1080), (300000, 7), (40, 20), (1 << 30, 1 << 30)].into_iter().map(|(w, h)| m(format!("size{w}x{h}"), move |i: &mut Image| (i.w, i.h) = (w, h))).collect());
    g.push((2..9).map(|o| m(format!("orientation{o}"), move |i: &mut Image| i.orientation = o)).collect());
    g.push([(1, 1), (8, 16), (1000, 777)].into_iter().map(|s| m(format!("intrinsic{s:?}"), move |i: &mut Image| i.intrinsic = Some(s))).collect());
    g.push([(1, 1), (64, 64), (65, 65), (128, 96), (320, 321), (1344, 1345), (4096, 4000), (5440, 5440)].into_iter().map(|s| m(format!("preview{s:?}"), move |i: &mut Image| i.preview = Some(s))).collect());
    let mut v = vec![];
    for num in [1, 2, 100, 1000, 1024, 1025, 1 << 30] {
        for den in [1, 2, 256, 257, 1001, 1024] {
            v.push((num, den, [0, 1, 7, 8, 65535, 65536, u32::MAX][(num as usize + den as usize) % 7], (num ^ den) & 1 == 1));
        }
    }
    for l in [0, 1, 7, 8, 65535, 65536, u32::MAX] {
        v.push((24, 1, l, l % 3 == 1));
    }
    g.push(v.into_iter().map(|(num, den, loops, timecodes)| m(format!("anim{num}/{den}/{loops}/{timecodes}"), move |i: &mut Image| i.anim = Some(Anim { num, den, loops, timecodes }))).collect());
    let mut v: Vec<Depth> = (1..=64).map(Depth::int).collect();
    for bits in 1..=64 {
        for exp in 1..=16 {
            if exp <= 9 || bits % 8 == 0 {
                v.push(Depth::float(bits, exp));
            }
        }
    }
    let ds = v.clone();
    g.push(v.into_iter().enumerate().filter(|(k, _)| k % 7 == 0 || *k < 33).map(|(_, d)| m(format!("depth{d:?}"), move |i: &mut Image| i.depth = d.clone())).collect());
    g.push(vec![m("m16", |i: &mut Image| i.m16 = false)]);
    let mut v: Vec<Vec<Ec>> = vec![];
    for ty in [0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 18, 63, 81] {
        v.push(vec![Ec::of(ty)]);
    }
    for s in 1..9 {
        v.push(vec![Ec { dim_shift: s, ..Ec::alpha() }]);
    }
    v.push(vec![Ec { assoc: true, ..Ec::alpha() }, Ec::alpha()]);
    for n in names() {
        v.push(vec![Ec { name: n.clone(), ..Ec::of(1) }, Ec { name: n, ..Ec::alpha() }]);
    }
    for s in [[0u16, 0x3c00, 0xbc00, 0x7bff], [1, 0x3ff, 0x400, 0x8001], [0x7c00, 0, 0, 0], [0, 0, 0, 0xfe00]] {
        v.push(vec![Ec { spot: s, ..Ec::of(2) }]);
    }
    for c in [0, 1, 3, 4, 18, 19, 274] {
        v.push(vec![Ec { cfa: c, ..Ec::of(5) }]);
    }
    for n in [2, 3, 17, 18, 40, 256, 257, 4096] {
        v.push((0..n).map(|i| Ec::of([0, 1, 3, 4, 6][i % 5])).collect());
    }
    for d in &ds {
        if d.bits % 5 == 1 || d.bits > 30 && d.bits < 34 {
            v.push(vec![Ec { depth: d.clone(), ..Ec::of(3) }]);
        }
    }
    g.push(v.into_iter().enumerate().map(|(k, e)| m(format!("ecs{k}"), move |i: &mut Image| i.ecs = e.clone())).collect());
    g.push(vec![
        m("xyb", |i: &mut Image| i.xyb = true),
        m("xyb+opsin", |i: &mut Image| {
            i.xyb = true;
            let mut o = [0x3c00u16; 16];
            for (k, x) in o.iter_mut().enumerate() {
                *x = 0x2400 + 77 * k as u16 | ((k as u16 & 1) << 15);
            }
            i.opsin = Some(o);
        }),
        m("xyb+badopsin", |i: &mut Image| {
            i.xyb = true;
            let mut o = [0x3c00u16; 16];
            o[15] = 0x7c01;
            i.opsin = Some(o);
        }),
    ]);
    let mut v = vec![Color::gray(), Color { icc: true, ..Color::srgb() }, Color { icc: true, ..Color::gray() }];
    for wp in [2, 10, 11, 3, 17] {
        v.push(Color { wp, wp_xy: (312700, -329000), ..Color::srgb() });
        v.push(Color { wp, wp_xy: (-2097152, 2097151), ..Color::gray() });
    }
    for prim in [2, 9, 11, 3, 17] {
        v.push(Color { prim, prim_xy: [(640000, 330000), (-1, 262143), (262144, -262144)], ..Color::srgb() });
    }
    for n in [1, 8, 13, 16, 17, 18, 2, 3, 19] {
        v.push(Color { tf: Tf::Named(n), intent: n % 4, ..Color::srgb() });
    }
    for gm in [4545455, 10_000_000, 1221, 1220, 10_000_001, 16_777_215] {
        v.push(Color { tf: Tf::Gamma(gm), intent: 3, ..Color::gray() });
    }
    for x in [0, 1, -1, 262143, -262144, 524287, 524288, -524288, -524289, 1048575, -1048577, 2097151] {
        v.push(Color { wp: 2, wp_xy: (x, -x), ..Color::srgb() });
    }
    g.push(v.into_iter().enumerate().map(|(k, c)| m(format!("color{k}"), move |i: &mut Image| i.color = c.clone())).collect());
    let mut v = vec![];
    for (a, b, r, l) in [
        (0x5bf8, 0, true, 0),
        (0x7bff, 0, false, 0),
        (0x5bf8, 0x3c00, false, 0x3c01),
        (0x5bf8, 0x3c00, true, 0x3c00),
        (0x5bf8, 0x3c00, true, 0x3c01),
        (0x0001, 0x0001, false, 0x0001),
        (0x3c00, 0x3c01, false, 0),
        (0x3c00, 0x3c00, false, 0),
        (0, 0, false, 0),
        (0xbc00, 0, false, 0),
        (0x3c00, 0x8001, false, 0),
        (0x3c00, 0, false, 0x8001),
        (0x7c00, 0, false, 0),
        (0x5bf8, 0x7e00, false, 0),
    ] {
        v.push(Tone { intensity: a, min_nits: b, relative: r, linear_below: l });
    }
    g.push(v.into_iter().enumerate().map(|(k, t)| m(format!("tone{k}"), move |i: &mut Image| i.tone = t.clone())).collect());
    g.push(ext_values().into_iter().enumerate().map(|(k, e)| m(format!("ext{k}"), move |i: &mut Image| i.ext = e.clone())).collect());
    let ker = |n: usize| (0..n).map(|k| 0x3000 + k as u16).collect::<Vec<H>>();
    g.push(
        (1..8usize)
            .map(|mask| {
                m(format!("kern{mask}"), move |i: &mut Image| {
                    for k in 0..3 {
                        if mask >> k & 1 == 1 {
                            i.kern[k] = Some(ker([15, 55, 210][k]));
                        }
                    }
                })
            })
            .collect(),
    );
    g.push(vec![m("badkern", move |i: &mut Image| {
        let mut k = vec![0x3000; 15];
        k[14] = 0x7c00;
        i.kern[0] = Some(k);
    })]);
    g
}
/// The header and every other way to write it (one field at a time; in pairs when `deep`).
fn all_forms(img: &Image, deep: bool) -> Result<(u64, u64), String> {
    let (mut n, mut d) = (1, image_case(img, None, None)?);
    let log = written(img, None, None).log;
    if log.len() > 400 {
        return Ok((d, n));
    }
    for (i, k) in log.iter().enumerate().flat_map(|(i, n)| (1..*n).map(move |k| (i, k))) {
        let f = Some((i, k));
        d = hash(&(d, image_case(img, f, None).map_err(|e| format!("field {i} written in way {k}: {e}"))?));
        n += 1;
        if deep {
            let log = written(img, f, None).log;
            for (j, l) in log.iter().enumerate().skip(i + 1).flat_map(|(j, n)| (1..*n).map(move |l| (j, l))) {
                d = hash(&(d, image_case(img, f, Some((j, l))).map_err(|e| format!("fields {i} and {j} written in ways {k} and {l}: {e}"))?));
                n += 1;
            }
        }
    }
    Ok((d, n))
}
fn images(ctx: &Ctx) {
    let g = image_fields();
    let items: Vec<(usize, usize)> = (0..g.len()).flat_map(|a| (0..g[a].len()).map(move |i| (a, i))).collect();
    ctx.note(format!("{} image header values in {} groups", items.len(), g.len()));
    ctx.case("image/plain", || all_forms(&Image::new(10, 10), true).map(|(d, n)| Obs::batch(d, n, n)));
    ctx.par(items.len(), |p| {
        let (a, i) = items[p];
        ctx.case(&format!("image/{}", g[a][i].0), || {
            let mut img = Image::new(10, 10);
            (g[a][i].1)(&mut img);
            let (mut d, mut n) = all_forms(&img, true)?;
            for b in a + 1..g.len() {
                for (nm, f) in &g[b] {
                    let mut img = img.clone();
                    f(&mut img);
                    let (x, y) = all_forms(&img, false).map_err(|e| format!("with {nm}: {e}"))?;
                    d = hash(&(d, x));
                    n += y;
                }
            }
            Ok(Obs::batch(d, n, n))
        });
        if !ctx.quick() {
            // three values at a time, in the shortest form
            for b in a + 1..g.len() {
                if ctx.out_of_time() {
                    return;
                }
                ctx.case(&format!("image3/{}/{b}", g[a][i].0), || {
                    let (mut d, mut n) = (0, 0);
                    for (nm, f) in &g[b] {
                        for c in b + 1..g.len() {
                            for (nm2, f2) in &g[c] {
                                let mut img = Image::new(10, 10);
                                (g[a][i].1)(&mut img);
                                f(&mut img);
                                f2(&mut img);
                                d = hash(&(d, image_case(&img, None, None).map_err(|e| format!("with {nm} and {nm2}: {e}"))?));
                                n += 1;
                            }
                        }
                    }
                    Ok(Obs::batch(d, n, n))
                });
            }
        }
    });
    let s = sizes();
    ctx.note(format!("{} image sizes", s.len()));
    ctx.par(s.len(), |k| {
        ctx.case(&format!("size/{}x{}", s[k].0, s[k].1), || {
            let (d, n) = all_forms(&Image::new(s[k].0, s[k].1), false)?;
            let mut i = Image::new(3, 3);
            i.intrinsic = Some(s[k]);
            let (e, o) = all_forms(&i, false)?;
            let (mut f, mut p) = (0, 0);
            if s[k].0 <= 4096 && s[k].1 <= 4096 {
                i.preview = Some(s[k]);
                i.intrinsic = None;
                (f, p) = all_forms(&i, false)?;
            }
            Ok(Obs::batch(hash(&(d, e, f)), n + o + p, n + o + p))
        });
    });
}

// ------------------------------------------------------------------------------------------ frame headers
/// Removes what the given kind of frame has no room for.
fn norm(f: &mut Frame, img: &Image) {
    f.ec_up.resize(img.ecs.len(), 1);
    let b = f.blend.clone();
    f.ec_blend.resize(img.ecs.len(), b);
    if !f.normal() {
        f.is_last = false;
        f.blend = Blend::replace();
        f.ec_blend.fill(Blend::replace());
        f.duration = 0;
        f.timecode = 0;
    }
    if f.ty == 1 {
        f.save_as = 0;
        f.crop = None;
        f.lf_level = f.lf_level.max(1);
    } else {
        f.lf_level = 0;
    }
    if f.ty == 2 {
        f.passes = Passes { num: 1, shift: vec![], ds: vec![] };
        if let Some(c) = &mut f.crop {
            (c.0, c.1) = (0, 0);
        }
    }
    if !f.modular {
        f.gss = 1;
        f.rf.sigma_modular = 0x3c00;
    } else {
        f.rf.sharp = None;
        if let Some(s) = &mut f.rf.sigma {
            s[0] = 0;
        }
    }
    if !f.rf.gab {
        f.rf.gab_custom = None;
    }
    if f.rf.epf == 0 {
        (f.rf.sharp, f.rf.weight, f.rf.sigma, f.rf.sigma_modular) = (None, None, None, 0x3c00);
    }
    if img.xyb {
        f.ycbcr = false;
    }
    if !f.ycbcr || f.has_lf() {
        f.jpeg_up = [0; 3];
    }
    if f.has_lf() {
        f.up = 1;
        f.ec_up.fill(1);
    }
    if f.modular || !img.xyb {
        (f.xqm, f.bqm) = (3, 2);
    }
    if img.anim.is_none() {
        f.duration = 0;
    }
    if !img.anim.as_ref().is_some_and(|a| a.timecodes) {
        f.timecode = 0;
    }
    if f.is_last {
        f.save_as = 0;
    }
    let full = f.full(img);
    for b in std::iter::once(&mut f.blend).chain(&mut f.ec_blend) {
        let uses = !img.ecs.is_empty() && (b.mode == 2 || b.mode == 3);
        if !uses {
            b.alpha = 0;
        }
        if !uses && b.mode != 4 {
            b.clamp = false;
        }
        if full && b.mode == 0 {
            b.source = 0;
        }
    }
    if !f.writes_before_ct(img) {
        f.before_ct = f.ty == 1;
    }
}
/// None: the format leaves it open here.
fn frame_ok(f: &Frame, img: &Image) -> Option<bool> {
    let n = img.ecs.len();
    let up_ok = f.has_lf() || f.ec_up.iter().zip(&img.ecs).all(|(u, e)| (u << e.dim_shift) >= f.up && (u << e.dim_shift) <= 8);
    let blend_ok = |b: &Blend| b.mode <= 4 && !(n > 0 && (b.mode == 2 || b.mode == 3) && b.alpha as usize >= n);
    let p = &f.passes;
    let passes_ok = p.num == 1
        || ((p.ds.len() as u32) < p.num
            && p.ds.windows(2).all(|w| w[1].0 < w[0].0 && w[1].1 > w[0].1)
            && p.ds.iter().all(|d| d.1 < p.num));
    let crop_ok = match f.crop {
        None => true,
        Some((_, _, w, h)) => w > 0 && h > 0,
    };
    let ref_ok = f.ty != 2 || f.before_ct || f.full(img);
    let rf = &f.rf;
    let halves = rf.gab_custom.iter().flatten().chain(rf.sharp.iter().flatten()).chain(rf.weight.iter().flatten()).chain(rf.sigma.iter().flatten()).chain([&rf.sigma_modular]).all(|x| finite(*x));
    let ok = up_ok && blend_ok(&f.blend) && f.ec_blend.iter().all(blend_ok) && passes_ok && crop_ok && ref_ok && halves;
    let open = (f.flags & 2 != 0 && f.up != 1 && f.ec_up.iter().any(|u| *u != f.up)) || (f.has_lf() && f.lf_level == 4);
    if ok && open { None } else { Some(ok) }
}
fn frame_case(f: &Frame, img: &Image, fh: &FileHeader, force: Option<(usize, usize)>, force2: Option<(usize, usize)>) -> Res {
    let mut bw = Bw { force, force2, ..Bw::new() };
    f.write(&mut bw, img);
    let mut b = bw.clone();
    b.u(7, 0x2b);
    b.bytes.extend([0xff; 9]);
    let mut br = BitReader::new(&b.bytes);
    let ok = frame_ok(f, img);
    let g = match FrameHeader::read_unconditional(&(), &mut br, &fh.frame_header_nonserialized()) {
        Ok(_) if ok == Some(false) => return Err("a frame header with values outside the limits was accepted".into()),
        Ok(g) => g,
        Err(e) if ok == Some(true) => return Err(format!("a legal frame header was refused: {e:?}")),
        Err(_) => return Ok(2),
    };
    same!("length of the header in bits", br.total_bits_read(), bw.nbits);
    same!("type", g.frame_type as u32, f.ty);
    same!("modular", g.encoding as u32 == 1, f.modular);
    same!("noise", g.has_noise(), f.flags & 1 != 0);
    same!("patches", g.has_patches(), f.flags & 2 != 0);
    same!("splines", g.has_splines(), f.flags & 16 != 0);
    same!("LF frame", g.has_lf_frame(), f.flags & 32 != 0);
    same!("LF smoothing", g.should_do_adaptive_lf_smoothing(), f.flags & 0xa0 == 0 && !f.modular);
    same!("YCbCr", g.do_ycbcr, f.ycbcr);
    let t = |t: [usize; 4], c: usize| t[f.jpeg_up[c] as usize];
    let (hs, vs) = ([0, 1, 1, 0], [0, 1, 0, 1]);
    let (mh, mv) = ((0..3).map(|c| t(hs, c)).max().unwrap(), (0..3).map(|c| t(vs, c)).max().unwrap());
    for c in 0..3 {
        same!("chroma shift", (g.hshift(c), g.vshift(c)), (mh - t(hs, c), mv - t(vs, c)));
    }
    same!("upsampling", g.upsampling, f.up);
    if !f.has_lf() {
        same!("upsampling of extra channels", g.ec_upsampling, f.ec_up);
    }
    same!("group size", g.group_dim(), f.group_dim());
    if !f.modular && img.xyb {
        same!("quantisation scales", (g.x_qm_scale, g.b_qm_scale), (f.xqm, f.bqm));
    }
    same!("passes", g.passes.num_passes, f.passes.num);
    if f.passes.num != 1 {
        same!("pass shifts", g.passes.shift, f.passes.shift);
        for p in 0..f.passes.num as usize {
            let (a, b) = g.passes.downsampling_bracket(p);
            let (x, y) = f.bracket(p);
            same!(format!("shifts coded in pass {p}"), (a, b), (x as usize, y.max(0) as usize));
        }
    }
    same!("LF level", g.lf_level, f.lf_level);
    same!("origin", (g.x0, g.y0), f.crop.map_or((0, 0), |c| (c.0, c.1)));
    same!("size", (g.width, g.height), f.crop.map_or((img.w, img.h), |c| (c.2, c.3)));
    let blend = |what: &str, g: &BlendingInfo, b: &Blend| -> Result<(), String> {
        same!(what, (g.mode as u32, g.alpha_channel, g.clamp, g.source), (b.mode, b.alpha, b.clamp, b.source));
        Ok(())
    };
    blend("blending", &g.blending_info, &f.blend)?;
    if f.normal() {
        same!("number of blendings", g.ec_blending_info.len(), f.ec_blend.len());
    }
    for (x, y) in g.ec_blending_info.iter().zip(&f.ec_blend) {
        blend("blending of an extra channel", x, y)?;
    }
    same!("duration", g.duration, f.duration);
    same!("last", g.is_last, f.is_last);
    same!("slot", g.save_as_reference, f.save_as);
    same!("can be referenced", g.can_be_referenced, f.can_be_referenced());
    same!("visible", g.is_visible(), f.visible());
    same!("saved before the colour transform", g.save_before_ct, f.before_ct);
    same!("name", g.name, String::from_utf8_lossy(&f.name).to_string());
    let r = &f.rf;
    let q = &g.restoration_filter;
    same!("smoothing", (q.gab, q.epf_iters), (r.gab, r.epf));
    let w = r.gab_custom.map(|x| x.map(h)).unwrap_or([0.115169525, 0.061248592, 0.115169525, 0.061248592, 0.115169525, 0.061248592]);
    bits_same!("smoothing weights", [q.gab_x_weight1, q.gab_x_weight2, q.gab_y_weight1, q.gab_y_weight2, q.gab_b_weight1, q.gab_b_weight2], w);
    if r.epf > 0 {
        let w = r.sharp.map(|x| x.map(h)).unwrap_or([0.0, 1.0 / 7.0, 2.0 / 7.0, 3.0 / 7.0, 4.0 / 7.0, 5.0 / 7.0, 6.0 / 7.0, 1.0]);
        if !f.modular {
            bits_same!("sharpness table", q.epf_sharp_lut, w);
        }
        let w = r.weight.map(|x| [h(x[0]), h(x[1]), h(x[2])]).unwrap_or([40.0, 5.0, 3.5]);
        bits_same!("channel scales", q.epf_channel_scale, w);
        let w = r.sigma.map(|x| x.map(h)).unwrap_or([0.46, 0.9, 6.5, 2.0 / 3.0]);
        bits_same!("filter scales", [q.epf_pass0_sigma_scale, q.epf_pass2_sigma_scale, q.epf_border_sad_mul], w[1..]);
        if f.modular {
            bits_same!("modular sigma", [q.epf_sigma_for_modular], [h(r.sigma_modular)]);
        } else {
            bits_same!("quantiser scale", [q.epf_quant_mul], [w[0]]);
        }
    }
    // Layout.
    let (w, hh) = f.size(img);
    if (w as u64) * (hh as u64) < 1 << 26 {
        same!("coded size", g.size(), f.size(img));
        same!("upsampled size", g.size_upsampled(), f.size_up(img));
        same!("blocks", g.size_blocks(), f.size_blocks(img));
        same!("groups", g.size_groups(), f.groups(img));
        same!("number of groups", g.num_groups(), f.groups(img).0 * f.groups(img).1);
        let (bx, by) = f.size_blocks(img);
        let lf = (bx.div_ceil(f.group_dim()), by.div_ceil(f.group_dim()));
        same!("LF groups", g.size_lf_groups(), lf);
        same!("sections", g.num_toc_entries(), f.num_sections(img));
        let d = f.group_dim();
        let (gx, gy) = f.groups(img);
        for k in [0, gx - 1, gx * gy - 1, gx * (gy - 1), (gx * gy) / 2] {
            let (x, y) = (k % gx * d, k / gx * d);
            let r = g.group_rect(k);
            same!("group rectangle", (r.origin, r.size), ((x, y), ((w - x).min(d), (hh - y).min(d))));
        }
    }
    Ok(hash(&(bw.nbits, &bw.bytes)))
}
fn frame_fields() -> Vec<Vec<Mut<Frame>>> {
    let mut g: Vec<Vec<Mut<Frame>>> = vec![];
    g.push((1..4).map(|t| m(format!("type{t}"), move |f: &mut Frame| f.ty = t)).collect());
    g.push(vec![m("vardct", |f: &mut Frame| f.modular = false)]);
    g.push([1u64, 2, 16, 32, 128, 0xb3, 17, 272, 273, 0xa0, 1 << 33, 1 << 62].into_iter().map(|x| m(format!("flags{x:x}"), move |f: &mut Frame| f.flags = x)).collect());
    let mut v = vec![];
    for k in 0..64u32 {
        let u = [k & 3, k >> 2 & 3, k >> 4];
        v.push(m(format!("ycbcr{u:?}"), move |f: &mut Frame| {
            f.ycbcr = true;
            f.jpeg_up = u;
        }));
    }
    g.push(v);
    g.push([2, 4, 8].into_iter().map(|u| m(format!("up{u}"), move |f: &mut Frame| f.up = u)).collect());
    g.push([[2, 2], [4, 8], [8, 8], [1, 2], [4, 4]].into_iter().map(|u| m(format!("ecup{u:?}"), move |f: &mut Frame| {
        for (a, b) in f.ec_up.iter_mut().zip(u.iter().cycle()) {
            *a = *b;
        }
    })).collect());
    g.push([0, 2, 3].into_iter().map(|s| m(format!("gss{s}"), move |f: &mut Frame| f.gss = s)).collect());
    g.push((0..8).map(|k| m(format!("qm{k}"), move |f: &mut Frame| (f.modular, f.xqm, f.bqm) = (false, k, 7 - k))).collect());
    let mut v = vec![];
    for num in [1, 2, 3, 4, 5, 11] {
        let shift: Vec<u32> = (0..num - 1).map(|i| (i * 7 + 1) % 4).collect();
        v.push(Passes { num, shift: shift.clone(), ds: vec![] });
        if num > 1 {
            for ds in [
                vec![(8, 0)],
                vec![(1, 0)],
                vec![(2, (num - 1).min(7))],
                vec![(2, num.min(7))],
                vec![(4, 0), (2, 1)],
                vec![(8, 0), (8, 1)],
                vec![(2, 0), (4, 1)],
                vec![(8, 1), (4, 1)],
                vec![(8, 2), (4, 1)],
                vec![(8, 0), (4, 1), (2, 2)],
                vec![(8, 0), (4, 1), (2, 2), (1, 3)],
                vec![(8, 0), (4, 2), (2, 3), (1, 7)],
            ] {
                v.push(Passes { num, shift: shift.clone(), ds });
            }
        }
    }
    g.push(v.into_iter().map(|p| m(format!("passes{p:?}"), move |f: &mut Frame| f.passes = p.clone())).collect());
    g.push((1..5).map(|l| m(format!("lf{l}"), move |f: &mut Frame| (f.ty, f.lf_level) = (1, l))).collect());
    g.push(
        [
            (0, 0, 300, 200),
            (0, 0, 299, 200),
            (0, 0, 300, 199),
            (-1, -1, 301, 201),
            (-1, 0, 300, 200),
            (1, 1, 1, 1),
            (-200, 100, 255, 256),
            (127, -128, 2303, 2304),
            (-128, 128, 2304, 18687),
            (9343, -9344, 18688, 5),
            (9344, -9345, 5, 20000),
            (1 << 29, -(1 << 28), 1, 1),
            (0, 0, 0, 5),
            (0, 0, 5, 0),
            (0, 0, 0, 0),
        ]
        .into_iter()
        .map(|c| m(format!("crop{c:?}"), move |f: &mut Frame| f.crop = Some(c)))
        .collect(),
    );
    let mut v = vec![];
    for mode in 0..7u32 {
        for alpha in [0, 1, 2, 3, 10] {
            for s in 0..4 {
                if alpha > 1 && s > 0 {
                    continue;
                }
                let b = Blend { mode, alpha, clamp: (mode + alpha + s) % 2 == 1, source: s };
                v.push(m(format!("blend{mode}.{alpha}.{s}"), move |f: &mut Frame| {
                    f.blend = b.clone();
                    for (i, e) in f.ec_blend.iter_mut().enumerate() {
                        *e = Blend { mode: (mode + i as u32) % 5, source: (s + i as u32) % 4, ..b.clone() };
                    }
                }));
            }
        }
    }
    for mode in [5, 6] {
        v.push(m(format!("ecblend{mode}"), move |f: &mut Frame| {
            for e in &mut f.ec_blend {
                e.mode = mode;
            }
        }));
    }
    g.push(v);
    g.push([(0, 5), (1, 0), (2, 1), (255, 7), (256, 1 << 31), (u32::MAX, u32::MAX)].into_iter().map(|(d, t)| m(format!("duration{d}.{t}"), move |f: &mut Frame| (f.duration, f.timecode) = (d, t))).collect());
    let mut v = vec![];
    for k in 0..8u32 {
        v.push(m(format!("notlast{k}"), move |f: &mut Frame| (f.is_last, f.save_as, f.before_ct) = (false, k & 3, k > 3)));
    }
    g.push(v);
    g.push(names().into_iter().enumerate().map(|(k, n)| m(format!("name{k}"), move |f: &mut Frame| f.name = n.clone())).collect());
    let mut v = vec![];
    for k in 0..32u32 {
        let base = 0x3000 + k as u16 * 7;
        let mut r = Rf::dflt();
        r.gab = k & 1 == 0;
        if k & 2 != 0 {
            r.gab_custom = Some([base, base + 1, base + 2, 0x8000 | base, base + 4, base + 5]);
        }
        r.epf = k >> 2 & 3;
        if k & 16 != 0 {
            r.sharp = Some([0, 1, 2, 3, 4, 5, 6, 7].map(|i| base + 10 + i));
            r.weight = Some([base + 20, base + 21, base + 22, base + 23, base + 24]);
            r.sigma = Some([base + 30, base + 31, base + 32, base + 33]);
            r.sigma_modular = base + 40;
        }
        v.push(r);
    }
    for k in 0..4 {
        let mut r = Rf::dflt();
        match k {
            0 => r.weight = Some([0x3000, 0x3001, 0x3002, 0x3003, 0x3004]),
            1 => r.sigma = Some([0x3000, 0x3001, 0x3002, 0x3003]),
            2 => r.sharp = Some([0x3000; 8]),
            _ => r.weight = Some([0x3000, 0x7c00, 0, 0, 0]),
        }
        v.push(r);
    }
    for e in ext_values() {
        v.push(Rf { ext: e, ..Rf::dflt() });
    }
    g.push(v.into_iter().enumerate().map(|(k, r)| m(format!("filters{k}"), move |f: &mut Frame| f.rf = r.clone())).collect());
    g.push(ext_values().into_iter().enumerate().map(|(k, e)| m(format!("ext{k}"), move |f: &mut Frame| f.ext = e.clone())).collect());
    g
}
fn frame_forms(f: &Frame, img: &Image, fh: &FileHeader, deep: bool) -> Result<(u64, u64), String> {
    let (mut n, mut d) = (1, frame_case(f, img, fh, None, None)?);
    let log = |fo| {
        let mut bw = Bw { force: fo, ..Bw::new() };
        f.write(&mut bw, img);
        bw.log
    };
    for (i, k) in log(None).into_iter().enumerate().flat_map(|(i, n)| (1..n).map(move |k| (i, k))) {
        let fo = Some((i, k));
        d = hash(&(d, frame_case(f, img, fh, fo, None).map_err(|e| format!("field {i} written in way {k}: {e}"))?));
        n += 1;
        if deep {
            for (j, l) in log(fo).into_iter().enumerate().skip(i + 1).flat_map(|(j, n)| (1..n).map(move |l| (j, l))) {
                d = hash(&(d, frame_case(f, img, fh, fo, Some((j, l))).map_err(|e| format!("fields {i} and {j} written in ways {k} and {l}: {e}"))?));
                n += 1;
            }
        }
    }
    Ok((d, n))
}
fn contexts() -> Vec<(&'static str, Image)> {
    let base = Image::new(300, 200);
    let anim = |t| Some(Anim { num: 10, den: 1, loops: 0, timecodes: t });
    vec![
        ("plain", base.clone()),
        ("alpha+spot", Image { ecs: vec![Ec::alpha(), Ec::of(2)], ..base.clone() }),
        ("anim", Image { anim: anim(false), ecs: vec![Ec::of(1)], ..base.clone() }),
        ("timecodes", Image { anim: anim(true), ..base.clone() }),
        ("xyb", Image { xyb: true, ecs: vec![Ec::alpha(), Ec::alpha(), Ec::alpha(), Ec::of(3)], ..base.clone() }),
        ("shifted", Image { ecs: vec![Ec { dim_shift: 2, ..Ec::alpha() }, Ec { dim_shift: 1, ..Ec::of(1) }], anim: anim(false), ..base }),
    ]
}
fn frames(ctx: &Ctx) {
    let g = frame_fields();
    let cs: Vec<(&str, Image, FileHeader)> = contexts()
        .into_iter()
        .map(|(n, i)| {
            let bw = written(&i, None, None);
            let fh = FileHeader::read(&mut BitReader::new(&[&bw.bytes[..], &[0; 8]].concat())).unwrap();
            (n, i, fh)
        })
        .collect();
    let items: Vec<(usize, usize)> = (0..g.len()).flat_map(|a| (0..g[a].len()).map(move |i| (a, i))).collect();
    ctx.note(format!("{} frame header values in {} groups, in {} images", items.len(), g.len(), cs.len()));
    ctx.par(items.len() * cs.len(), |p| {
        let (cn, img, fh) = &cs[p % cs.len()];
        let (a, i) = items[p / cs.len()];
        for dflt in [false, true] {
            let id = format!("frame/{cn}{}/{}", if dflt { "/filters" } else { "" }, g[a][i].0);
            ctx.case(&id, || {
                let mut f = Frame::new(img);
                if dflt {
                    f.rf = Rf::dflt();
                    f.modular = false;
                }
                let base = f.clone();
                (g[a][i].1)(&mut f);
                let mut n0 = f.clone();
                norm(&mut n0, img);
                let (mut d, mut n) = frame_forms(&n0, img, fh, true)?;
                let _ = base;
                for b in a + 1..g.len() {
                    for (nm, x) in &g[b] {
                        let mut f = f.clone();
                        x(&mut f);
                        norm(&mut f, img);
                        let (e, k) = frame_forms(&f, img, fh, false).map_err(|e| format!("with {nm}: {e}"))?;
                        d = hash(&(d, e));
                        n += k;
                    }
                }
                Ok(Obs::batch(d, n, n))
            });
            if ctx.quick() || dflt {
                continue;
            }
            for b in a + 1..g.len() {
                if ctx.out_of_time() {
                    return;
                }
                ctx.case(&format!("frame3/{cn}/{}/{b}", g[a][i].0), || {
                    let (mut d, mut n) = (0, 0);
                    for (nm, x) in &g[b] {
                        for c in b + 1..g.len() {
                            for (nm2, y) in &g[c] {
                                let mut f = Frame::new(img);
                                (g[a][i].1)(&mut f);
                                x(&mut f);
                                y(&mut f);
                                norm(&mut f, img);
                                d = hash(&(d, frame_case(&f, img, fh, None, None).map_err(|e| format!("with {nm} and {nm2}: {e}"))?));
                                n += 1;
                            }
                        }
                    }
                    Ok(Obs::batch(d, n, n))
                });
            }
        }
    });
    // Layout of frames of many sizes.
    let dims = [1u32, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2047, 2048, 2049, 8191, 8192, 8193, 16385];
    ctx.par(dims.len() * dims.len(), |p| {
        let (w, hh) = (dims[p / dims.len()], dims[p % dims.len()]);
        ctx.case(&format!("layout/{w}x{hh}"), || {
            let (mut d, mut n) = (0, 0);
            let img = Image::new(w, hh);
            let bw = written(&img, None, None);
            let fh = FileHeader::read(&mut BitReader::new(&[&bw.bytes[..], &[0; 8]].concat())).unwrap();
            for modular in [true, false] {
                for gss in 0..if modular { 4 } else { 1 } {
                    for up in [1, 2, 4, 8] {
                        for (ty, lf) in [(0, 0), (1, 1), (1, 2), (1, 4)] {
                            for ju in [[0, 0, 0], [1, 0, 1], [0, 1, 0], [2, 0, 2], [3, 0, 0], [0, 2, 3]] {
                                for np in [1, 2] {
                                    let mut f = Frame::new(&img);
                                    (f.modular, f.gss, f.up, f.ty, f.lf_level, f.jpeg_up, f.ycbcr) = (modular, if modular { gss } else { 1 }, up, ty, lf, ju, ju != [0, 0, 0]);
                                    f.passes = Passes { num: np, shift: vec![0; np as usize - 1], ds: vec![] };
                                    norm(&mut f, &img);
                                    d = hash(&(d, frame_case(&f, &img, &fh, None, None).map_err(|e| format!("{modular} {gss} {up} {ty} {lf} {ju:?} {np}: {e}"))?));
                                    n += 1;
                                }
                            }
                        }
                    }
                }
            }
            Ok(Obs::batch(d, n, n))
        });
    });
}

// ------------------------------------------------------------------------------------------ section tables
const TOC: [crate::enc::D; 4] = [B(10, 0), B(14, 1024), B(22, 17408), B(30, 4211712)];
fn toc_case(sizes: &[u32], perm: Option<&[usize]>, force: Option<(usize, usize)>, dirty: Option<bool>) -> Res {
    let mut bw = Bw::new();
    bw.b(perm.is_some());
    if let Some(p) = perm {
        let s = perm_syms(p, 0);
        let mut e = crate::enc::ent::Ent::auto(8);
        e.prepare(&[&s]);
        e.write_header(&mut bw);
        e.write_tokens(&mut bw, &s);
    }
    let at = bw.nbits;
    bw.align();
    let pad = bw.nbits - at;
    if dirty.is_some() {
        if pad == 0 {
            return Ok(0);
        }
        // a set bit in the padding
        let k = if dirty == Some(true) { at } else { bw.nbits - 1 };
        bw.bytes[k / 8] |= 1 << (k % 8);
    }
    bw.field = 0;
    bw.force = force;
    for s in sizes {
        bw.u32(TOC, *s);
    }
    let end = bw.nbits;
    bw.bytes.extend([0xa5; 8]);
    let n = sizes.len() as u32;
    let mut br = BitReader::new(&bw.bytes);
    let a = Toc::read_unconditional(&(), &mut br, &TocNonserialized { num_entries: n });
    let mut br2 = BitReader::new(&bw.bytes);
    let b = (|| {
        let mut r = IncrementalTocReader::new(n, &mut br2)?;
        let mut steps = 0;
        while !r.is_complete() {
            if steps > 0 && (r.num_read_entries(), r.remaining_entries()) != (steps - 1, n + 1 - steps) {
                panic!("after {steps} steps {} entries are read and {} remain", r.num_read_entries(), r.remaining_entries());
            }
            r.read_step(&mut br2)?;
            steps += 1;
        }
        Ok::<_, jxl::error::Error>(r.finalize())
    })();
    if dirty.is_some() {
        return match (a, b) {
            (Err(_), Err(_)) => Ok(1),
            (a, b) => Err(format!("padding that is not zero: {:?} {:?}", a.is_ok(), b.is_ok())),
        };
    }
    for (what, t, pos) in [("whole", a, br.total_bits_read()), ("step by step", b, br2.total_bits_read())] {
        let t = t.map_err(|e| format!("{what}: {e:?}"))?;
        same!(format!("{what}: section sizes"), t.entries[..], sizes[..]);
        same!(format!("{what}: permuted"), t.permuted, perm.is_some());
        if let Some(p) = perm {
            same!(format!("{what}: permutation"), t.permutation.iter().map(|x| *x as usize).collect::<Vec<_>>(), p.to_vec());
        }
        same!(format!("{what}: length"), pos, end);
    }
    Ok(hash(&bw.bytes))
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r.sort();
    r
}
fn tables(ctx: &Ctx) {
    let vals = [0u32, 1, 1023, 1024, 1025, 17407, 17408, 17409, 4211711, 4211712, 4211713, (1 << 30) + 4211711];
    ctx.par(vals.len(), |i| {
        ctx.case(&format!("toc/sizes/{}", vals[i]), || {
            let (mut d, mut n) = (0, 0);
            for b in vals {
                for c in vals {
                    for (f, k) in (0..3).flat_map(|f| (0..4).map(move |k| (f, k))) {
                        d = hash(&(d, toc_case(&[vals[i], b, c], None, Some((f, k)), None)?));
                        n += 1;
                    }
                }
                for p in perms(2) {
                    d = hash(&(d, toc_case(&[vals[i], b], Some(&p), None, None)?));
                    n += 1;
                }
            }
            Ok(Obs::batch(d, n, n))
        });
    });
    for k in 1..=ctx.pick(6usize, 8) {
        let ps = perms(k);
        ctx.par(ps.len().div_ceil(64), |c| {
            ctx.case(&format!("toc/perm{k}/{c}"), || {
                let (mut d, mut n) = (0, 0);
                for p in ps.iter().skip(64 * c).take(64) {
                    let sizes: Vec<u32> = (0..k as u32).map(|i| i * 300).collect();
                    for dirty in [None, Some(true), Some(false)] {
                        d = hash(&(d, toc_case(&sizes, Some(p), None, dirty)?));
                        n += 1;
                    }
                }
                Ok(Obs::batch(d, n, n))
            });
        });
    }
    ctx.case("toc/dirty", || {
        let mut n = 0;
        for dirty in [None, Some(true), Some(false)] {
            for s in [vec![5], vec![0, 0], vec![1, 2, 3]] {
                toc_case(&s, None, None, dirty)?;
                n += 1;
            }
        }
        Ok(Obs::batch(1, n, n))
    });
}

// ------------------------------------------------------------------------------------------ whole files
/// All orders of the sections of small frames, delivered whole and byte by byte: same picture.
fn orders(ctx: &Ctx) {
    for (name, w, hh, passes) in [("2groups", 200u32, 9u32, 1u32), ("2passes", 60, 20, 2), ("3groups", 300, 5, 1), ("2x2", 130, 130, 1)] {
        let img = Image::new(w, hh);
        let mut f = Frame::new(&img);
        f.gss = 0;
        if passes == 2 {
            f.passes = Passes { num: 2, shift: vec![0], ds: vec![(4, 0)] };
        }
        let o = ModOpts::new(Tree::single(5), 8);
        let (secs, chans) = modular_frame(&img, &f, &o, None, &mut |_, c, x, y| ((x * 7 + y * 13 + c * 31) % 251) as i32);
        let ns = secs.len();
        let ps = perms(ns.min(6));
        let k = ctx.pick(if ns > 6 { 4 } else { 1 }, 1);
        ctx.par(ps.len().div_ceil(10 * k), |c| {
            ctx.case(&format!("order/{name}/{c}"), || {
                let (mut d, mut n) = (0, 0);
                for p in ps.iter().skip(10 * k * c).take(10 * k).step_by(k) {
                    let mut p = p.clone();
                    p.extend(6..ns.max(6));
                    p.truncate(ns);
                    let mut bw = Bw::new();
                    img.write(&mut bw);
                    assemble(&img, &f, &secs, Some(&p), &mut bw);
                    let chunks = [bw.bytes.len(), 40, 7];
                    for chunk in &chunks[..ctx.pick(2, 3)] {
                        let mut s = Script::new(&bw.bytes, 0);
                        let mut cuts: Vec<usize> = (1..=bw.bytes.len() / chunk).map(|i| i * chunk).collect();
                        cuts.push(bw.bytes.len());
                        let out = run(&mut Plan::new(&Opts::default()), &mut s, &cuts);
                        super::lossless::check_f32(&out, 0, &chans, &[8; 3]).map_err(|e| format!("order {p:?} in pieces of {chunk}: {e}"))?;
                        d = hash(&(d, out.digest()));
                        n += 1;
                    }
                }
                Ok(Obs::batch(d, n, n))
            });
        });
    }
}
/// What the decoder object reports for whole files.
fn api(ctx: &Ctx) {
    let g = image_fields();
    let items: Vec<(usize, usize)> = (1..g.len()).flat_map(|a| (0..g[a].len()).map(move |i| (a, i))).collect();
    ctx.par(items.len(), |p| {
        let (a, i) = items[p];
        let mut img = Image::new(5, 3);
        (g[a][i].1)(&mut img);
        if img.color.icc || img.ecs.len() > 20 || img.preview.is_some_and(|(w, h)| w as u64 * h as u64 > 1 << 22) {
            return;
        }
        ctx.case(&format!("api/image/{}", g[a][i].0), || {
            let mut bw = Bw::new();
            img.write(&mut bw);
            bw.align();
            let mut d = jxl::api::JxlDecoder::new(Opts::default().to_jxl());
            let mut data = &bw.bytes[..];
            use jxl::api::ProcessingResult::*;
            let r = loop {
                match d.process(&mut data, None) {
                    Ok(Complete { result }) => break Ok(result),
                    Ok(NeedsMoreInput { fallback, .. }) => {
                        if data.is_empty() {
                            break Err("more".to_string());
                        }
                        d = fallback;
                    }
                    Err(e) => break Err(format!("{e:?}")),
                }
            };
            let r = match r {
                Ok(_) if !image_ok(&img) => return Err("values outside the limits were accepted".into()),
                Ok(r) => r,
                Err(e) if image_ok(&img) => return Err(format!("a legal header: {e}")),
                Err(_) => return Ok(Obs::new(0, 1)),
            };
            let b = r.basic_info();
            let o = img.orientation;
            same!("size", b.size, if o >= 5 { (3, 5) } else { (5, 3) });
            same!("orientation", b.orientation as u32, o);
            same!("bit depth", b.bit_depth.bits_per_sample(), img.depth.bits);
            same!("original profile", b.uses_original_profile, !img.xyb);
            same!("extra channels", b.extra_channels.iter().map(|e| (e.ec_type as u32, e.alpha_associated)).collect::<Vec<_>>(), img.ecs.iter().map(|e| (e.ty, e.ty == 0 && e.assoc)).collect::<Vec<_>>());
            same!(
                "animation",
                b.animation.as_ref().map(|a| (a.tps_numerator, a.tps_denominator, a.num_loops, a.have_timecodes)),
                img.anim.as_ref().map(|a| (a.num, a.den, a.loops, a.timecodes))
            );
            same!("preview", b.preview_size, img.preview.map(|(w, h)| (w as usize, h as usize)));
            bits_same!("tone mapping", [b.tone_mapping.intensity_target, b.tone_mapping.min_nits], [h(img.tone.intensity), h(img.tone.min_nits)]);
            Ok(Obs::new(hash(&bw.bytes), 1))
        });
    });
    // Frames: names, durations, which ones are shown.
    let anims = [(100, 1), (1000, 1), (24, 1001), (1, 1), (1 << 30, 7), (3, 1024)];
    ctx.par(anims.len(), |k| {
        let (num, den) = anims[k];
        ctx.case(&format!("api/frames/{num}/{den}"), || {
            let mut img = Image::new(4, 4);
            img.anim = Some(Anim { num, den, loops: 0, timecodes: k % 2 == 1 });
            let (mut dg, mut n) = (0, 0);
            for durs in [[0u32, 5, 1], [1, 0, 0], [u32::MAX, 256, 0], [0, 0, 0], [255, 1, 2]] {
                for nm in names() {
                    let mut bw = Bw::new();
                    img.write(&mut bw);
                    let mut want = vec![];
                    for (j, d) in durs.iter().enumerate() {
                        let mut f = Frame::new(&img);
                        f.duration = *d;
                        f.is_last = j == 2;
                        f.name = if j == 1 { vec![] } else { nm.clone() };
                        f.timecode = if k % 2 == 1 { 77 } else { 0 };
                        if f.visible() {
                            want.push((String::from_utf8_lossy(&f.name).to_string(), *d as f64 * 1000.0 * den as f64 / num as f64, *d, f.is_last));
                        }
                        let (secs, _) = modular_frame(&img, &f, &ModOpts::new(Tree::single(0), 8), None, &mut |_, _, x, _| x as i32);
                        assemble(&img, &f, &secs, None, &mut bw);
                    }
                    let o = oneshot(&bw.bytes, &Opts::default(), FmtSel::F32All);
                    if o.end != End::Done {
                        return Err(format!("{:?}", o.end));
                    }
                    let got: Vec<(String, f64)> = o.frames.iter().map(|f| (f.name.clone(), f.duration.unwrap_or(-1.0))).collect();
                    let close = |a: f64, b: f64| (a - b).abs() <= b.abs() * 1e-12;
                    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != b.0 || !close(a.1, b.1)) {
                        return Err(format!("frames {got:?}, written {want:?}"));
                    }
                    let sc = oneshot(&bw.bytes, &Opts { scan_only: true, ..Opts::default() }, FmtSel::F32All);
                    for (s, w) in sc.scanned.iter().zip(&want) {
                        let ok = s.contains(&format!(" {}t ", w.2)) && s.contains(&format!("last={} ", w.3)) && s.ends_with(&format!("name={:?}", w.0));
                        if !ok {
                            return Err(format!("scanned {s}, written {w:?}"));
                        }
                    }
                    same!("number of scanned frames", sc.scanned.len(), want.len());
                    dg = hash(&(dg, o.digest()));
                    n += 2;
                }
            }
            Ok(Obs::batch(dg, n, n))
        });
    });
}
pub fn c15(ctx: &Ctx) {
    ctx.set_rule("state space: header field values one and two at a time (thorough: three), in every way the format has to write each field (and in pairs of ways), section tables and all section orders; each is written by an independent encoder and read by the decoder's readers and through the API; transitions are header reads; non-vacuous: legal headers read back field by field and end at the right bit, illegal ones are refused");
    ctx.assume("unknown or XYB colour spaces, reserved extra-channel types and mixed upsampling with patches are not judged");
    images(ctx);
    frames(ctx);
    tables(ctx);
    orders(ctx);
    api(ctx);
}
