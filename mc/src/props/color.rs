//! C19: colour descriptions, the profiles made from them, transfer curves, and pixels in the described space.
use crate::dec::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::engine::*;
use jxl::api::*;
use jxl::color::tf;
use jxl::headers::color_encoding::RenderingIntent;
use jxl_simd::*;

pub type M3 = [[f64; 3]; 3];
fn mul(a: &M3, b: &M3) -> M3 {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn app(a: &M3, v: [f64; 3]) -> [f64; 3] {
    std::array::from_fn(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
fn inv(m: &M3) -> M3 {
    let c = |i: usize, j: usize| {
        let (a, b) = ((i + 1) % 3, (i + 2) % 3);
        let (x, y) = ((j + 1) % 3, (j + 2) % 3);
        m[a][x] * m[b][y] - m[a][y] * m[b][x]
    };
    let det = (0..3).map(|j| m[0][j] * c(0, j)).sum::<f64>();
    std::array::from_fn(|i| std::array::from_fn(|j| c(j, i) / det))
}
const BRADFORD: M3 = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];
const D50: [f64; 3] = [0.96422, 1.0, 0.82521];
fn white_xyz((x, y): (f64, f64)) -> [f64; 3] {
    [x / y, 1.0, (1.0 - x - y) / y]
}
fn adapt(w: (f64, f64)) -> M3 {
    let (s, d) = (app(&BRADFORD, white_xyz(w)), app(&BRADFORD, D50));
    let mut g = [[0.0; 3]; 3];
    for i in 0..3 {
        g[i][i] = d[i] / s[i];
    }
    mul(&inv(&BRADFORD), &mul(&g, &BRADFORD))
}
fn to_xyz(p: [(f64, f64); 3], w: (f64, f64)) -> M3 {
    let m: M3 = [
        std::array::from_fn(|i| p[i].0),
        std::array::from_fn(|i| p[i].1),
        std::array::from_fn(|i| 1.0 - p[i].0 - p[i].1),
    ];
    let s = app(&inv(&m), white_xyz(w));
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j] * s[j]))
}

// ---------------------------------------------------------------- curves
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cv {
    Srgb,
    Bt709,
    Linear,
    Dci,
    Pq,
    Hlg,
    Gamma(f64),
}
const M1: f64 = 2610.0 / 16384.0;
const M2: f64 = 2523.0 / 32.0;
const PC: [f64; 3] = [3424.0 / 4096.0, 2413.0 / 128.0, 2392.0 / 128.0];
const HA: f64 = 0.17883277;
const HB: f64 = 1.0 - 4.0 * HA;
const HC: f64 = 0.5599107295;
/// Signal of a linear value; for PQ 1.0 is 10000 nits, for HLG the value is scene light.
fn encode(c: Cv, v: f64) -> f64 {
    let a = v.abs();
    let e = match c {
        Cv::Srgb => if a <= 0.0031308 { a * 12.92 } else { 1.055 * a.powf(1.0 / 2.4) - 0.055 },
        Cv::Bt709 => if a <= 0.018 { a * 4.5 } else { 1.099 * a.powf(0.45) - 0.099 },
        Cv::Linear => a,
        Cv::Dci => a.powf(1.0 / 2.6),
        Cv::Gamma(g) => a.powf(g),
        Cv::Pq => {
            let x = a.powf(M1);
            ((PC[0] + PC[1] * x) / (1.0 + PC[2] * x)).powf(M2)
        }
        Cv::Hlg => if a <= 1.0 / 12.0 { (3.0 * a).sqrt() } else { HA * (12.0 * a - HB).ln() + HC },
    };
    e.copysign(v)
}
fn decode(c: Cv, v: f64) -> f64 {
    let a = v.abs();
    let l = match c {
        Cv::Srgb => if a <= 0.04045 { a / 12.92 } else { ((a + 0.055) / 1.055).powf(2.4) },
        Cv::Bt709 => if a <= 0.081 { a / 4.5 } else { ((a + 0.099) / 1.099).powf(1.0 / 0.45) },
        Cv::Linear => a,
        Cv::Dci => a.powf(2.6),
        Cv::Gamma(g) => a.powf(1.0 / g),
        Cv::Pq => {
            let x = a.powf(1.0 / M2);
            ((x - PC[0]).max(0.0) / (PC[1] - PC[2] * x)).powf(1.0 / M1)
        }
        Cv::Hlg => if a <= 0.5 { a * a / 3.0 } else { (((a - HC) / HA).exp() + HB) / 12.0 },
    };
    l.copysign(v)
}
fn hlg_gamma(nits: f64) -> f64 {
    1.2 * 1.111f64.powf((nits / 1000.0).log2())
}

// ---------------------------------------------------------------- descriptions
const WPS: [JxlWhitePoint; 3] = [JxlWhitePoint::D65, JxlWhitePoint::E, JxlWhitePoint::DCI];
const PRS: [JxlPrimaries; 3] = [JxlPrimaries::SRGB, JxlPrimaries::BT2100, JxlPrimaries::P3];
const INTENTS: [RenderingIntent; 4] =
    [RenderingIntent::Perceptual, RenderingIntent::Relative, RenderingIntent::Saturation, RenderingIntent::Absolute];
fn wp_xy(w: &JxlWhitePoint) -> (f64, f64) {
    match w {
        JxlWhitePoint::D65 => (0.3127, 0.3290),
        JxlWhitePoint::E => (1.0 / 3.0, 1.0 / 3.0),
        JxlWhitePoint::DCI => (0.314, 0.351),
        JxlWhitePoint::Chromaticity { wx, wy } => (*wx as f64, *wy as f64),
    }
}
fn pr_xy(p: &JxlPrimaries) -> [(f64, f64); 3] {
    match p {
        JxlPrimaries::SRGB => [(0.64, 0.33), (0.3, 0.6), (0.15, 0.06)],
        JxlPrimaries::BT2100 => [(0.708, 0.292), (0.17, 0.797), (0.131, 0.046)],
        JxlPrimaries::P3 => [(0.68, 0.32), (0.265, 0.69), (0.15, 0.06)],
        JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by } => {
            [(*rx as f64, *ry as f64), (*gx as f64, *gy as f64), (*bx as f64, *by as f64)]
        }
    }
}
fn curve(t: &JxlTransferFunction) -> Cv {
    match t {
        JxlTransferFunction::SRGB => Cv::Srgb,
        JxlTransferFunction::BT709 => Cv::Bt709,
        JxlTransferFunction::Linear => Cv::Linear,
        JxlTransferFunction::DCI => Cv::Dci,
        JxlTransferFunction::PQ => Cv::Pq,
        JxlTransferFunction::HLG => Cv::Hlg,
        JxlTransferFunction::Gamma(g) => Cv::Gamma(*g as f64),
    }
}
fn wps() -> Vec<JxlWhitePoint> {
    let mut v = WPS.to_vec();
    for (wx, wy) in [(0.3127, 0.3291), (0.34567, 0.3585), (0.25, 0.25), (0.44758, 0.40745), (0.3, 0.4)] {
        v.push(JxlWhitePoint::Chromaticity { wx, wy });
    }
    v
}
fn prs() -> Vec<JxlPrimaries> {
    let mut v = PRS.to_vec();
    for [rx, ry, gx, gy, bx, by] in [
        [0.64, 0.33, 0.21, 0.71, 0.15, 0.06],
        [0.7347, 0.2653, 0.0, 1.0, 0.0001, -0.077],
        [0.63, 0.34, 0.31, 0.595, 0.155, 0.07],
        [0.15, 0.06, 0.3, 0.6, 0.64, 0.33],
    ] {
        v.push(JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by });
    }
    v
}
fn tfs() -> Vec<JxlTransferFunction> {
    let mut v = vec![
        JxlTransferFunction::BT709,
        JxlTransferFunction::Linear,
        JxlTransferFunction::SRGB,
        JxlTransferFunction::PQ,
        JxlTransferFunction::DCI,
        JxlTransferFunction::HLG,
    ];
    v.extend([1.0, 0.4545455, 0.5555, 0.1, 0.000123].map(JxlTransferFunction::Gamma));
    v
}

// ---------------------------------------------------------------- reading profiles
fn be32(b: &[u8], i: usize) -> u32 {
    u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}
fn be16(b: &[u8], i: usize) -> u32 {
    b[i] as u32 * 256 + b[i + 1] as u32
}
fn fix(b: &[u8], i: usize) -> f64 {
    be32(b, i) as i32 as f64 / 65536.0
}
fn md5(data: &[u8]) -> [u8; 16] {
    let k: Vec<u32> = (0..64).map(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32).collect();
    let r = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_le_bytes());
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for c in m.chunks(64) {
        let w: Vec<u32> = c.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
        let [mut a, mut b, mut cc, mut d] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => (b & cc | !b & d, i),
                1 => (d & b | !d & cc, (5 * i + 1) % 16),
                2 => (b ^ cc ^ d, (3 * i + 5) % 16),
                _ => (cc ^ (b | !d), 7 * i % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]);
            (a, d, cc) = (d, cc, b);
            b = b.wrapping_add(t.rotate_left(r[i / 16][i % 4]));
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0; 16];
    for (i, v) in h.iter().enumerate() {
        o[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    o
}
struct Icc<'a> {
    b: &'a [u8],
    tags: Vec<(&'a [u8], &'a [u8])>,
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
impl<'a> Icc<'a> {
    /// Header, tag table and element framing of any profile.
    fn parse(b: &'a [u8]) -> Result<Icc<'a>, String> {
        ensure!(b.len() >= 132 && be32(b, 0) as usize == b.len(), "size field {} of {} bytes", be32(b, 0), b.len());
        ensure!(&b[36..40] == b"acsp", "no file signature");
        ensure!(b[8] == 4 && b[10..12] == [0, 0], "version {:x}", be32(b, 8));
        ensure!(b[100..128].iter().all(|x| *x == 0), "reserved header bytes set");
        let mo = be16(b, 26);
        ensure!((1..=12).contains(&mo) && (1..=31).contains(&be16(b, 28)) && be16(b, 30) < 24, "date");
        for (i, v) in [0.9642, 1.0, 0.8249].iter().enumerate() {
            ensure!((fix(b, 68 + 4 * i) - v).abs() < 1e-4, "illuminant {i}: {}", fix(b, 68 + 4 * i));
        }
        let mut z = b.to_vec();
        z[44..48].fill(0);
        z[64..68].fill(0);
        z[84..100].fill(0);
        ensure!(b[84..100] == md5(&z), "profile identifier is not the checksum");
        let n = be32(b, 128) as usize;
        let first = 132 + 12 * n;
        ensure!(n > 0 && first <= b.len(), "{n} tags");
        let mut tags: Vec<(&[u8], &[u8])> = vec![];
        let mut areas: Vec<(usize, usize)> = vec![];
        for i in 0..n {
            let e = &b[132 + 12 * i..144 + 12 * i];
            let (o, s) = (be32(e, 4) as usize, be32(e, 8) as usize);
            ensure!(o % 4 == 0 && o >= first && s >= 8 && o + s <= b.len(), "tag {i} at {o}+{s}");
            ensure!(tags.iter().all(|t| t.0 != &e[..4]), "tag {i} twice");
            ensure!(b[o + 4..o + 8] == [0; 4], "tag {i}: reserved bytes");
            ensure!(
                areas.iter().all(|a| *a == (o, s) || o >= a.0 + a.1 || a.0 >= o + s),
                "tag {i} at {o}+{s} overlaps another"
            );
            areas.push((o, s));
            tags.push((&e[..4], &b[o..o + s]));
        }
        areas.sort();
        areas.dedup();
        // nothing but padding in between
        let mut at = first;
        for (o, s) in areas {
            ensure!(o - at < 4 && b[at..o].iter().all(|x| *x == 0), "{} bytes before the element at {o}", o - at);
            at = o + s;
        }
        ensure!(b.len() - at < 4 && b.len() % 4 == 0, "{} bytes after the last element, {} in all", b.len() - at, b.len());
        Ok(Icc { b, tags })
    }
    fn tag(&self, t: &str) -> Option<&'a [u8]> {
        self.tags.iter().find(|x| x.0 == t.as_bytes()).map(|x| x.1)
    }
    fn need(&self, t: &str) -> Result<&'a [u8], String> {
        self.tag(t).ok_or(format!("no {t} tag"))
    }
    fn text(&self, t: &str) -> Result<String, String> {
        let d = self.need(t)?;
        ensure!(d.len() >= 28 && &d[..4] == b"mluc" && be32(d, 8) == 1 && be32(d, 12) == 12, "{t}: frame");
        let (l, o) = (be32(d, 20) as usize, be32(d, 24) as usize);
        ensure!(l % 2 == 0 && o >= 28 && o + l <= d.len() && d.len() - o - l < 4, "{t}: text at {o}+{l} of {}", d.len());
        let u: Vec<u16> = d[o..o + l].chunks(2).map(|x| be16(x, 0) as u16).collect();
        String::from_utf16(&u).map_err(|e| e.to_string())
    }
    fn nums(&self, t: &str, ty: &[u8; 4], n: usize) -> Result<Vec<f64>, String> {
        let d = self.need(t)?;
        ensure!(&d[..4] == ty && d.len() == 8 + 4 * n, "{t}: {} bytes", d.len());
        Ok((0..n).map(|i| fix(d, 8 + 4 * i)).collect())
    }
}
/// Length and value of a one-dimensional curve element.
fn one_curve(d: &[u8]) -> Result<(usize, Box<dyn Fn(f64) -> f64>), String> {
    ensure!(d.len() >= 12, "curve of {} bytes", d.len());
    match &d[..4] {
        b"curv" => {
            let n = be32(d, 8) as usize;
            ensure!(d.len() >= 12 + 2 * n && n <= 4096, "curve with {n} entries in {} bytes", d.len());
            let t: Vec<f64> = (0..n).map(|i| be16(d, 12 + 2 * i) as f64).collect();
            let f: Box<dyn Fn(f64) -> f64> = match n {
                0 => Box::new(|x| x),
                1 => Box::new(move |x| x.powf(t[0] / 256.0)),
                _ => Box::new(move |x| {
                    let p = x * (t.len() - 1) as f64;
                    let i = (p as usize).min(t.len() - 2);
                    (t[i] + (t[i + 1] - t[i]) * (p - i as f64)) / 65535.0
                }),
            };
            Ok((12 + 2 * n, f))
        }
        b"para" => {
            let ty = be16(d, 8) as usize;
            ensure!(ty < 5 && be16(d, 10) == 0, "curve type {ty}");
            let n = [1, 3, 4, 5, 7][ty];
            ensure!(d.len() >= 12 + 4 * n, "curve type {ty} in {} bytes", d.len());
            let p: Vec<f64> = (0..n).map(|i| fix(d, 12 + 4 * i)).collect();
            Ok((
                12 + 4 * n,
                Box::new(move |x| {
                    let q = |i: usize| p.get(i).copied().unwrap_or(0.0);
                    let (g, a, b, c, dd) = (p[0], q(1), q(2), q(3), q(4));
                    match ty {
                        0 => x.powf(g),
                        1 => if x >= -b / a { (a * x + b).powf(g) } else { 0.0 },
                        2 => if x >= -b / a { (a * x + b).powf(g) + c } else { c },
                        3 => if x >= dd { (a * x + b).powf(g) } else { c * x },
                        _ => if x >= dd { (a * x + b).powf(g) + q(5) } else { c * x + q(6) },
                    }
                }),
            ))
        }
        t => Err(format!("curve type {t:?}")),
    }
}

fn intent_of(e: &JxlColorEncoding) -> RenderingIntent {
    match e {
        JxlColorEncoding::RgbColorSpace { rendering_intent: r, .. }
        | JxlColorEncoding::GrayscaleColorSpace { rendering_intent: r, .. }
        | JxlColorEncoding::XYB { rendering_intent: r } => *r,
    }
}
fn name_wp(w: &JxlWhitePoint) -> String {
    match w {
        JxlWhitePoint::D65 => "D65".into(),
        JxlWhitePoint::E => "EER".into(),
        JxlWhitePoint::DCI => "DCI".into(),
        JxlWhitePoint::Chromaticity { wx, wy } => format!("{wx:.7};{wy:.7}"),
    }
}
fn name(e: &JxlColorEncoding) -> String {
    let it = ["Per", "Rel", "Sat", "Abs"][intent_of(e) as usize];
    let tfn = |t: &JxlTransferFunction| match t {
        JxlTransferFunction::BT709 => "709".into(),
        JxlTransferFunction::Linear => "Lin".into(),
        JxlTransferFunction::SRGB => "SRG".into(),
        JxlTransferFunction::PQ => "PeQ".into(),
        JxlTransferFunction::DCI => "DCI".into(),
        JxlTransferFunction::HLG => "HLG".into(),
        JxlTransferFunction::Gamma(g) => format!("g{g:.7}"),
    };
    match e {
        JxlColorEncoding::XYB { .. } => format!("XYB_{it}"),
        JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, .. } => {
            format!("Gra_{}_{it}_{}", name_wp(white_point), tfn(transfer_function))
        }
        JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, .. } => {
            let p = match primaries {
                JxlPrimaries::SRGB => "SRG".into(),
                JxlPrimaries::BT2100 => "202".into(),
                JxlPrimaries::P3 => "DCI".into(),
                JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by } => {
                    format!("{rx:.7},{ry:.7};{gx:.7},{gy:.7};{bx:.7},{by:.7}")
                }
            };
            let s = format!("RGB_{}_{p}_{it}_{}", name_wp(white_point), tfn(transfer_function));
            match s.as_str() {
                "RGB_D65_SRG_Per_SRG" => "sRGB".into(),
                "RGB_D65_DCI_Per_SRG" => "DisplayP3".into(),
                "RGB_D65_202_Rel_PeQ" => "Rec2100PQ".into(),
                "RGB_D65_202_Rel_HLG" => "Rec2100HLG".into(),
                _ => s,
            }
        }
    }
}
fn near(what: &str, got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!((g - w).abs() <= tol * w.abs().max(1.0), "{what}: value {i} is {g}, not {w}");
    }
    Ok(())
}
/// The profile of a description, read back and compared with the description.
fn check_profile(e: &JxlColorEncoding) -> Result<u64, String> {
    let b = match e.maybe_create_profile() {
        Ok(Some(b)) => b,
        o => return Err(format!("{e:?}: no profile: {:?}", o.map(|x| x.is_some()))),
    };
    let again = JxlColorProfile::Simple(e.clone());
    ensure!(again.as_icc().as_slice() == b && again.try_as_icc().is_some_and(|x| x.as_slice() == b), "{e:?}: two calls, two profiles");
    let f = || -> Result<(), String> {
        let p = Icc::parse(&b)?;
        let gray = matches!(e, JxlColorEncoding::GrayscaleColorSpace { .. });
        let xyb = matches!(e, JxlColorEncoding::XYB { .. });
        ensure!(&b[12..16] == if xyb { b"scnr" } else { b"mntr" }, "profile class");
        ensure!(&b[16..20] == if gray { b"GRAY" } else { b"RGB " }, "data space");
        ensure!(be32(&b, 64) == intent_of(e) as u32, "intent {}", be32(&b, 64));
        ensure!(p.b.len() == b.len(), "length");
        ensure!(p.text("desc")? == name(e) && e.get_color_encoding_description() == name(e), "description {:?}", p.text("desc"));
        ensure!(!p.text("cprt")?.is_empty(), "copyright");
        let wp = match e {
            JxlColorEncoding::RgbColorSpace { white_point, .. } | JxlColorEncoding::GrayscaleColorSpace { white_point, .. } => wp_xy(white_point),
            _ => wp_xy(&JxlWhitePoint::D65),
        };
        let w = p.nums("wtpt", b"XYZ ", 3)?;
        if gray {
            near("white point", &w, &white_xyz(wp), 2e-5)?;
        } else {
            near("white point", &w, &D50, 5e-4)?;
            let c = p.nums("chad", b"sf32", 9)?;
            near("adaptation", &c, &adapt(wp).concat(), 1e-4)?;
        }
        let mut hdr = false;
        if let JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, .. } = e {
            let m = mul(&adapt(wp), &to_xyz(pr_xy(primaries), wp));
            for (j, t) in ["rXYZ", "gXYZ", "bXYZ"].iter().enumerate() {
                near(t, &p.nums(t, b"XYZ ", 3)?, &[m[0][j], m[1][j], m[2][j]], 1e-4)?;
            }
            let (d65, dci) = (*white_point == JxlWhitePoint::D65, *white_point == JxlWhitePoint::DCI);
            let cp = match primaries {
                JxlPrimaries::SRGB if d65 => 1,
                JxlPrimaries::BT2100 if d65 => 9,
                JxlPrimaries::P3 if d65 => 12,
                JxlPrimaries::P3 if dci => 11,
                _ => 0,
            };
            let ct = match transfer_function {
                JxlTransferFunction::BT709 => 1,
                JxlTransferFunction::Linear => 8,
                JxlTransferFunction::SRGB => 13,
                JxlTransferFunction::PQ => 16,
                JxlTransferFunction::DCI => 17,
                JxlTransferFunction::HLG => 18,
                _ => 0,
            };
            match p.tag("cicp") {
                Some(c) => ensure!(c[..4] == *b"cicp" && c[8..] == [cp, ct, 0, 1] && cp > 0 && ct > 0, "coding points {c:?}"),
                None => ensure!(cp == 0 || ct == 0, "no coding points"),
            }
            hdr = cp > 0 && matches!(transfer_function, JxlTransferFunction::PQ | JxlTransferFunction::HLG);
            if hdr {
                hdr_table(&p, curve(transfer_function), &to_xyz(pr_xy(primaries), wp), &adapt(wp))?;
            }
        }
        ensure!(&b[20..24] == if hdr { b"Lab " } else { b"XYZ " }, "connection space");
        if hdr || xyb {
            let d = p.need("B2A0")?;
            ensure!(&d[..4] == b"mBA " && d[8..10] == [3, 3] && d.len() >= 32, "B2A0");
            let mut at = be32(d, 12) as usize;
            ensure!((1..5).all(|i| be32(d, 12 + 4 * i) == 0), "B2A0 parts");
            for _ in 0..3 {
                ensure!(at < d.len(), "B2A0 curves");
                let (l, f) = one_curve(&d[at..])?;
                near("B2A0 curve", &[f(0.0), f(0.3), f(1.0)], &[0.0, 0.3, 1.0], 1e-4)?;
                at += l;
            }
        }
        if xyb {
            return xyb_table(&p);
        }
        if !hdr {
            let (JxlColorEncoding::RgbColorSpace { transfer_function, .. } | JxlColorEncoding::GrayscaleColorSpace { transfer_function, .. }) = e else {
                unreachable!()
            };
            let cv = curve(transfer_function);
            for t in if gray { &["kTRC"][..] } else { &["rTRC", "gTRC", "bTRC"] } {
                let d = p.need(t)?;
                let (l, f) = one_curve(d)?;
                ensure!(l == d.len(), "{t}: {} bytes, {l} used", d.len());
                // a table is only compared where it has entries
                let n = if &d[..4] == b"curv" { be32(d, 8) as usize - 1 } else { 500 };
                let mut last = -1.0;
                for i in 0..=n {
                    let x = i as f64 / n as f64;
                    let (g, w) = (f(x), decode(cv, x));
                    ensure!((g - w.min(1.0)).abs() < 2e-4, "{t}: {x} gives {g}, not {w}");
                    ensure!(g >= last - 1e-4, "{t}: falls at {x}");
                    last = g;
                }
            }
        }
        Ok(())
    };
    f().map_err(|m| format!("{e:?}: {m}"))?;
    Ok(hash(&b))
}
/// Tone mapping of high-dynamic-range signals to the profile's table.
fn hdr_table(p: &Icc, cv: Cv, rgb_xyz: &M3, chad: &M3) -> Result<(), String> {
    let d = p.need("A2B0")?;
    let n = 9;
    ensure!(&d[..4] == b"mft1" && d[8..12] == [3, 3, n as u8, 0], "A2B0: frame {:?}", &d[..12]);
    ensure!(d.len() == 48 + 3 * 256 * 2 + 3 * n * n * n + (4 - (48 + 3 * n * n * n) % 4) % 4, "A2B0: {} bytes", d.len());
    for i in 0..9 {
        ensure!(fix(d, 12 + 4 * i) == (i % 4 == 0) as u32 as f64, "A2B0 matrix");
    }
    let out = 48 + 768 + 3 * n * n * n;
    for i in 0..768 {
        ensure!(d[48 + i] as usize == i % 256 && d[out + i] as usize == i % 256, "A2B0 input or output table");
    }
    let lum = rgb_xyz[1];
    let m = mul(chad, rgb_xyz);
    let g = hlg_gamma(80.0) - 1.0;
    let pq = |nits: f64| encode(Cv::Pq, nits / 10000.0);
    let maxl = pq(250.0) / pq(10000.0);
    let ks = 1.5 * maxl - 0.5;
    let dot = |v: &[f64; 3]| (0..3).map(|i| v[i] * lum[i]).sum::<f64>();
    for i in 0..n * n * n {
        let mut v: [f64; 3] = [i / n / n, i / n % n, i % n].map(|k| decode(cv, k as f64 / (n - 1) as f64));
        if cv == Cv::Hlg {
            let y = dot(&v);
            if y > 0.0 {
                v = v.map(|x| x * y.powf(g));
            }
        } else {
            let y = 10000.0 * dot(&v);
            let e = pq(y).min(1.0);
            let e2 = if e < ks {
                e
            } else {
                let t = (e - ks) / (1.0 - ks);
                (2.0 * t * t * t - 3.0 * t * t + 1.0) * ks + (t * t * t - 2.0 * t * t + t) * (1.0 - ks) + (3.0 * t * t - 2.0 * t * t * t) * maxl
            };
            let new = (decode(Cv::Pq, e2) * 10000.0).clamp(0.0, 250.0);
            v = if y <= 1e-6 { [new / 250.0; 3] } else { v.map(|x| x * new / y * 40.0) };
        }
        // mix with gray until in range
        let y = dot(&v);
        let (mut sat, mut lumi) = (0.0f64, 0.0f64);
        for x in v {
            let dg = x - y;
            let r = if dg == 0.0 { 1.0 } else { 1.0 / dg };
            if dg < 0.0 {
                sat = sat.max(x * r);
            }
            lumi = lumi.max(if dg <= 0.0 { sat } else { x * r - r });
        }
        let mix = (0.3 * (sat - lumi) + lumi).clamp(0.0, 1.0);
        v = v.map(|x| x + mix * (y - x));
        let top = v[0].max(v[1]).max(v[2]).max(1.0);
        let xyz = app(&m, v.map(|x| x / top));
        let f = |t: f64| if t > (6.0f64 / 29.0).powi(3) { t.cbrt() } else { t * (29.0f64 / 6.0).powi(2) / 3.0 + 4.0 / 29.0 };
        let (fx, fy, fz) = (f(xyz[0] / 0.964212), f(xyz[1]), f(xyz[2] / 0.825188));
        let lab = [
            255.0 * (1.16 * fy - 0.16).clamp(0.0, 1.0),
            128.0 + (500.0 * (fx - fy)).clamp(-128.0, 127.0),
            128.0 + (200.0 * (fy - fz)).clamp(-128.0, 127.0),
        ];
        for c in 0..3 {
            let got = d[48 + 768 + 3 * i + c] as f64;
            ensure!((got - lab[c]).abs() < 0.75, "A2B0: entry {i} component {c} is {got}, not {}", lab[c]);
        }
    }
    Ok(())
}
pub const OPSIN: M3 = [
    [11.031566901960783, -9.866943921568629, -0.16462299647058826],
    [-3.254147380392157, 4.418770392156863, -0.16462299647058826],
    [-3.6588512862745097, 2.7129230470588235, 1.9459282392156863],
];
const BIAS: f64 = 0.0037930732552754493;
/// The table of the XYB profile against the definition of XYB.
fn xyb_table(p: &Icc) -> Result<(), String> {
    let d = p.need("A2B0")?;
    ensure!(&d[..4] == b"mAB " && d[8..12] == [3, 3, 0, 0], "A2B0: frame");
    let o: Vec<usize> = (0..5).map(|i| be32(d, 12 + 4 * i) as usize).collect();
    ensure!(o.iter().all(|x| *x >= 32 && *x < d.len() && x % 4 == 0), "A2B0: parts at {o:?}");
    let curves = |mut at: usize| -> Result<Vec<Box<dyn Fn(f64) -> f64>>, String> {
        (0..3)
            .map(|_| {
                ensure!(at < d.len(), "A2B0: curves");
                let (l, f) = one_curve(&d[at..])?;
                at += l;
                Ok(f)
            })
            .collect()
    };
    let (bc, mc, ac) = (curves(o[0])?, curves(o[2])?, curves(o[4])?);
    ensure!(o[1] + 48 <= d.len() && o[3] + 20 + 48 <= d.len(), "A2B0: too short");
    ensure!(d[o[3]..o[3] + 3] == [2, 2, 2] && d[o[3] + 16] == 2, "A2B0: grid");
    let at = |x: usize, y: usize, z: usize, c: usize| be16(d, o[3] + 20 + 2 * (((x * 2 + y) * 2 + z) * 3 + c)) as f64 / 65535.0;
    let srgb = mul(&adapt((0.3127, 0.329)), &to_xyz(pr_xy(&JxlPrimaries::SRGB), (0.3127, 0.329)));
    for i in 0..729 {
        let v = [i / 81, i / 9 % 9, i % 9].map(|k| k as f64 / 8.0);
        // by the profile
        let a: [f64; 3] = std::array::from_fn(|c| ac[c](v[c]));
        let g: [f64; 3] = std::array::from_fn(|c| {
            let mut s = 0.0;
            for k in 0..8 {
                let w: f64 = (0..3).map(|j| if k >> (2 - j) & 1 == 1 { a[j] } else { 1.0 - a[j] }).product();
                s += w * at(k >> 2, k >> 1 & 1, k & 1, c);
            }
            mc[c](s)
        });
        let got: [f64; 3] = std::array::from_fn(|r| {
            let s = (0..3).map(|c| fix(d, o[1] + 4 * (r * 3 + c)) * g[c]).sum::<f64>() + fix(d, o[1] + 36 + 4 * r);
            if (0.0..=1.0).contains(&s) { bc[r](s) } else { s }
        });
        // by definition
        let x = v[0] / 22.995788804 - 0.015386134;
        let y = v[1] / 1.183000077;
        let b = v[2] / 1.502141333 - 0.27770459 + y;
        let lms = [y + x, y - x, b].map(|t| (t + BIAS.cbrt()).max(0.0).powi(3) - BIAS);
        let want = app(&srgb, app(&OPSIN, lms)).map(|t| t / 2.0);
        for c in 0..3 {
            ensure!((got[c] - want[c]).abs() < 2e-3, "A2B0: {v:?} component {c} gives {}, not {}", got[c], want[c]);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- curves on a grid
struct Curve {
    name: &'static str,
    simd: bool,
    tol: f64,
    want: fn(f64) -> f64,
}
fn grid(ctx: &Ctx) -> Vec<f32> {
    // every float from 2^-26 to 1 with the low bits of its fraction zero, and their successors
    let low = ctx.pick(12u32, 7);
    let mut v = vec![0.0f32, 1.0];
    let (a, b) = (2f32.powi(-26).to_bits() >> low, 1f32.to_bits() >> low);
    for i in a..b {
        v.push(f32::from_bits(i << low));
        v.push(f32::from_bits((i << low) + (1 << low) - 1));
    }
    for t in [0.0031308f32, 0.04045, 0.018, 0.081, 1.0 / 12.0, 0.5, 1e-4] {
        for k in -40i32..40 {
            v.push(f32::from_bits((t.to_bits() as i32 + k) as u32));
        }
    }
    v.retain(|x| *x <= 1.0);
    v.sort_by(f32::total_cmp);
    v
}
fn curve_ok(name: &str, xs: &[f32], got: &[f32], neg: &[f32], tol: f64, want: &dyn Fn(f64) -> f64) -> Result<(), String> {
    let mut top = f32::MIN;
    for i in 0..xs.len() {
        let x = xs[i] as f64;
        if name.contains(" power ") && x < 1e-6 {
            continue;
        }
        let w = want(x);
        // either piece at the very place where a curve changes from one to the other
        let e = [x, x * (1.0 - 2e-7), (x * (1.0 + 2e-7)).min(1.0)].map(|x| (got[i] as f64 - want(x)).abs()).into_iter().fold(f64::MAX, f64::min);
        ensure!(e <= tol, "{name}: {:e} gives {:e}, not {w:e}", xs[i], got[i]);
        ensure!(neg[i].to_bits() == (-got[i]).to_bits() || got[i] == 0.0 && neg[i] == 0.0, "{name}: {:e} gives {:e}, its negative {:e}", xs[i], got[i], neg[i]);
        ensure!(got[i] as f64 >= top as f64 - tol - if name.contains("709") && (0.0809..0.0811).contains(&x) { 6e-5 } else { 0.0 }, "{name}: falls at {:e}", xs[i]);
        top = top.max(got[i]);
    }
    Ok(())
}
fn curves<D: SimdDescriptor>(ctx: &Ctx, xs: &[f32], level: &'static str) {
    let Some(d) = D::new() else { return };
    type F<D> = fn(D, &mut [f32]);
    let mut list: Vec<(String, Box<dyn Fn(&mut [f32]) + Sync>, f64, Box<dyn Fn(f64) -> f64 + Sync>)> = vec![];
    let _: Option<F<D>> = None;
    macro_rules! add {
        ($n:expr, $t:expr, |$v:ident| $f:expr, $w:expr) => {
            list.push(($n.to_string(), Box::new(move |$v: &mut [f32]| d.call(|d| { let _ = d; $f })), $t, Box::new($w)))
        };
    }
    list.push(("linear_to_srgb".into(), Box::new(move |v| d.call(|d| tf::linear_to_srgb_simd(d, v))), 1.2e-6, Box::new(|x| encode(Cv::Srgb, x))));
    list.push(("srgb_to_linear".into(), Box::new(move |v| d.call(|d| tf::srgb_to_linear_simd(d, v))), 1.2e-6, Box::new(|x| decode(Cv::Srgb, x))));
    list.push(("linear_to_bt709".into(), Box::new(move |v| d.call(|d| tf::linear_to_bt709_simd(d, v))), 1e-6, Box::new(|x| encode(Cv::Bt709, x))));
    list.push(("bt709_to_linear".into(), Box::new(move |v| d.call(|d| tf::bt709_to_linear_simd(d, v.len(), v))), 4e-5, Box::new(|x| decode(Cv::Bt709, x))));
    for it in [10000.0f32, 4000.0, 1000.0, 255.0, 100.0] {
        let m = it as f64 / 10000.0;
        list.push((format!("linear_to_pq {it}"), Box::new(move |v| d.call(|d| tf::linear_to_pq_simd(d, it, v.len(), v))), 5e-6, Box::new(move |x| encode(Cv::Pq, x * m))));
        let t = 6e-6 / m;
        list.push((format!("pq_to_linear {it}"), Box::new(move |v| d.call(|d| tf::pq_to_linear_simd(d, it, v.len(), v))), t, Box::new(move |x| decode(Cv::Pq, x) / m)));
    }
    for g in [0.4545455f32, 1.0 / 2.6, 0.9, 0.1] {
        list.push((
            format!("power {g}"),
            Box::new(move |v| {
                d.call(|d| {
                    for c in v.chunks_exact_mut(D::F32Vec::LEN) {
                        let x = D::F32Vec::load(d, c);
                        jxl::util::fast_powf_simd(d, x.abs(), D::F32Vec::splat(d, g)).copysign(x).store(c);
                    }
                })
            }),
            6e-5,
            Box::new(move |x| x.powf(g as f64)),
        ));
    }
    if level == "scalar" {
        add!("srgb_to_linear one by one", 1.2e-6, |v| tf::srgb_to_linear(v), |x| decode(Cv::Srgb, x));
        add!("bt709_to_linear one by one", 4e-5, |v| tf::bt709_to_linear(v), |x| decode(Cv::Bt709, x));
        add!("scene_to_hlg", 1.5e-6, |v| tf::scene_to_hlg(v), |x| encode(Cv::Hlg, x));
        add!("hlg_to_scene", 1e-5, |v| tf::hlg_to_scene(v), |x| decode(Cv::Hlg, x));
        add!("scene_to_hlg precise", 2e-7, |v| tf::scene_to_hlg_precise(v), |x| encode(Cv::Hlg, x));
        add!("hlg_to_scene precise", 2e-7, |v| tf::hlg_to_scene_precise(v), |x| decode(Cv::Hlg, x));
        for it in [10000.0f32, 1000.0, 255.0] {
            let m = it as f64 / 10000.0;
            let w = move |x: f64| if x == 0.0 { 0.0 } else { encode(Cv::Pq, x * m) };
            add!(format!("linear_to_pq precise {it}"), 2e-7, |v| tf::linear_to_pq_precise(it, v), w);
            add!(format!("pq_to_linear precise {it}"), 2e-7 / m, |v| tf::pq_to_linear_precise(it, v), move |x| decode(Cv::Pq, x) / m);
            add!(format!("linear_to_pq one by one {it}"), 3e-6, |v| tf::linear_to_pq(it, v), move |x| encode(Cv::Pq, x * m));
            add!(format!("pq_to_linear one by one {it}"), 6e-6 / m, |v| tf::pq_to_linear(it, v), move |x| decode(Cv::Pq, x) / m);
        }
        add!("cosine", 3e-5, |v| v.iter_mut().for_each(|x| *x = jxl::util::fast_cos(*x * 20.0 + std::f32::consts::FRAC_PI_2).copysign(if *x < 0.0 { -1.0 } else { 1.0 })), |x| (x * 20.0 + std::f64::consts::FRAC_PI_2).cos());
        list.pop();
    }
    ctx.par(list.len(), |i| {
        let (n, f, tol, want) = &list[i];
        ctx.case(&format!("curve/{level}/{n}"), || {
            let mut v = xs.to_vec();
            v.resize(v.len().next_multiple_of(64), 1.0);
            let mut m: Vec<f32> = v.iter().map(|x| -x).collect();
            f(&mut v);
            f(&mut m);
            // a value does not depend on its place in the vector
            let mut w: Vec<f32> = xs.iter().rev().copied().collect();
            w.resize(v.len(), 0.5);
            f(&mut w);
            for i in 0..xs.len() {
                ensure!(w[i].to_bits() == v[xs.len() - 1 - i].to_bits(), "{n}: {:e} gives two values", xs[xs.len() - 1 - i]);
            }
            curve_ok(&format!("{level} {n}"), xs, &v[..xs.len()], &m[..xs.len()], *tol, want)?;
            Ok(Obs::batch(hash(&(level, n)), xs.len() as u64, 3 * xs.len() as u64))
        });
    });
}
fn functions(ctx: &Ctx) {
    ctx.case("functions/cosine", || {
        let n = 200_000;
        for i in 0..=n {
            let x = i as f32 / n as f32 * 40.0 - 20.0;
            let (g, w) = (jxl::util::fast_cos(x) as f64, (x as f64).cos());
            ensure!((g - w).abs() < 1e-4, "cosine of {x} is {g}, not {w}");
        }
        Ok(Obs::batch(1, n, n))
    });
    ctx.case("functions/logarithm and power of two", || {
        let mut k = 0;
        for b in (0x0080_0000u32..0x7f80_0000).step_by(1 << 11) {
            let x = f32::from_bits(b);
            let (g, w) = (jxl::util::fast_log2f(x) as f64, (x as f64).log2());
            ensure!((g - w).abs() < 2e-5 + w.abs() * 2e-7, "logarithm of {x:e} is {g}, not {w}");
            k += 1;
        }
        for i in -120 * 1024..=120 * 1024 {
            let x = i as f32 / 1024.0;
            let (g, w) = (jxl::util::fast_pow2f(x) as f64, (x as f64).exp2());
            ensure!((g / w - 1.0).abs() < 3e-6, "2 to the {x} is {g}, not {w}");
            k += 1;
        }
        Ok(Obs::batch(2, k, k))
    });
    ctx.case("functions/error function", || {
        // integrated from its definition
        let (mut s, n) = (0.0f64, 400_000u64);
        for i in 0..n {
            let h = 4.0 / n as f64;
            let x = i as f64 * h;
            if i % 16 == 0 {
                for q in [x, -x] {
                    let g = jxl::util::fast_erff(q as f32) as f64;
                    let w = s.copysign(q);
                    ensure!((g - w).abs() < 8e-4, "error function of {q} is {g}, not {w}");
                }
            }
            let m = x + h / 2.0;
            s += h / 6.0 * ((-x * x).exp() + 4.0 * (-m * m).exp() + (-(x + h) * (x + h)).exp()) * 2.0 / std::f64::consts::PI.sqrt();
        }
        Ok(Obs::batch(3, n / 16, n / 8))
    });
    for nits in [80.0f32, 100.0, 203.0, 255.0, 300.0, 400.0, 500.0, 600.0, 700.0, 1000.0, 2000.0, 4000.0, 10000.0] {
        ctx.case(&format!("ootf/{nits}"), || {
            let l = [0.2627f32, 0.678, 0.0593];
            let g = hlg_gamma(nits as f64);
            let mut k = 0;
            for i in 0..17 * 17 * 17 {
                let v = [i / 289, i / 17 % 17, i % 17].map(|x| x as f32 / 16.0);
                let y: f64 = (0..3).map(|c| v[c] as f64 * l[c] as f64).sum();
                if y == 0.0 {
                    continue;
                }
                type F = fn(f32, [f32; 3], [&mut [f32]; 3]);
                let list: [(&str, F, f64); 4] = [
                    ("scene to display", tf::hlg_scene_to_display, g - 1.0),
                    ("scene to display (precise)", tf::hlg_scene_to_display_precise, g - 1.0),
                    ("display to scene", tf::hlg_display_to_scene, 1.0 / g - 1.0),
                    ("display to scene (precise)", tf::hlg_display_to_scene_precise, 1.0 / g - 1.0),
                ];
                for (n, f, e) in list {
                    let [mut r, mut gg, mut b] = v.map(|x| [x]);
                    f(nits, l, [&mut r, &mut gg, &mut b]);
                    for (c, got) in [r[0], gg[0], b[0]].into_iter().enumerate() {
                        let w = v[c] as f64 * y.powf(e);
                        // a change of less than a hundredth of the exponent may be left out
                        let tol = if e.abs() < 0.011 { 0.015 } else { 1e-4 };
                        ensure!((got as f64 - w).abs() <= tol * w.max(0.1), "{n} at {nits} nits: {v:?} component {c} gives {got}, not {w}");
                    }
                    k += 3;
                }
            }
            Ok(Obs::batch(hash(&nits.to_bits()), k, k))
        });
    }
}

// ---------------------------------------------------------------- through the decoder
fn um(x: f64) -> i32 {
    (x * 1e6).round() as i32
}
/// The header fields of a description.
pub fn header(e: &JxlColorEncoding) -> Color {
    let wp = |w: &JxlWhitePoint| match w {
        JxlWhitePoint::D65 => (1, (0, 0)),
        JxlWhitePoint::E => (10, (0, 0)),
        JxlWhitePoint::DCI => (11, (0, 0)),
        JxlWhitePoint::Chromaticity { wx, wy } => (2, (um(*wx as f64), um(*wy as f64))),
    };
    let tfn = |t: &JxlTransferFunction| match t {
        JxlTransferFunction::BT709 => Tf::Named(1),
        JxlTransferFunction::Linear => Tf::Named(8),
        JxlTransferFunction::SRGB => Tf::Named(13),
        JxlTransferFunction::PQ => Tf::Named(16),
        JxlTransferFunction::DCI => Tf::Named(17),
        JxlTransferFunction::HLG => Tf::Named(18),
        JxlTransferFunction::Gamma(g) => Tf::Gamma((*g as f64 * 1e7).round() as u32),
    };
    match e {
        JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, rendering_intent } => {
            let (w, xy) = wp(white_point);
            Color { space: 1, wp: w, wp_xy: xy, tf: tfn(transfer_function), intent: *rendering_intent as u32, ..Color::srgb() }
        }
        JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent } => {
            let (w, xy) = wp(white_point);
            let (p, pxy) = match primaries {
                JxlPrimaries::SRGB => (1, [(0, 0); 3]),
                JxlPrimaries::BT2100 => (9, [(0, 0); 3]),
                JxlPrimaries::P3 => (11, [(0, 0); 3]),
                p => (2, pr_xy(p).map(|(x, y)| (um(x), um(y)))),
            };
            Color { space: 0, wp: w, wp_xy: xy, prim: p, prim_xy: pxy, tf: tfn(transfer_function), intent: *rendering_intent as u32, ..Color::srgb() }
        }
        _ => unreachable!(),
    }
}
/// Descriptions, up to the rounding of the header's fields.
fn same(a: &JxlColorEncoding, b: &JxlColorEncoding) -> bool {
    let xy = |p: (f64, f64), q: (f64, f64)| (p.0 - q.0).abs() < 2e-7 && (p.1 - q.1).abs() < 2e-7;
    let w = |a: &JxlWhitePoint, b: &JxlWhitePoint| std::mem::discriminant(a) == std::mem::discriminant(b) && xy(wp_xy(a), wp_xy(b));
    let t = |a: &JxlTransferFunction, b: &JxlTransferFunction| match (a, b) {
        (JxlTransferFunction::Gamma(x), JxlTransferFunction::Gamma(y)) => (x - y).abs() < 1.1e-7,
        _ => a == b,
    };
    match (a, b) {
        (
            JxlColorEncoding::RgbColorSpace { white_point: wa, primaries: pa, transfer_function: ta, rendering_intent: ra },
            JxlColorEncoding::RgbColorSpace { white_point: wb, primaries: pb, transfer_function: tb, rendering_intent: rb },
        ) => {
            w(wa, wb)
                && std::mem::discriminant(pa) == std::mem::discriminant(pb)
                && (0..3).all(|i| xy(pr_xy(pa)[i], pr_xy(pb)[i]))
                && t(ta, tb)
                && ra == rb
        }
        (
            JxlColorEncoding::GrayscaleColorSpace { white_point: wa, transfer_function: ta, rendering_intent: ra },
            JxlColorEncoding::GrayscaleColorSpace { white_point: wb, transfer_function: tb, rendering_intent: rb },
        ) => w(wa, wb) && t(ta, tb) && ra == rb,
        _ => false,
    }
}
fn open(data: &[u8]) -> Result<JxlDecoder<states::WithImageInfo>, String> {
    let o = Opts::default();
    let mut s = Script::new(data, data.len());
    let mut p = Plan::new(&o);
    p.max_frames = 0;
    match run_from(Dec::Init(JxlDecoder::new(o.to_jxl())), &mut p, &mut s, &[data.len()]) {
        (_, Dec::Img(d)) => Ok(d),
        (o, _) => Err(format!("not decoded: {o:?}")),
    }
}
/// The value of `e` for pixels given as XYB, with the header's parameters.
struct Want {
    m: M3,
    lum: [f64; 3],
    gray: bool,
    cv: Cv,
    nits: f64,
    bias: [f64; 3],
    /// Another space than sRGB's.
    exact: bool,
}
impl Want {
    fn new(e: &JxlColorEncoding, nits: f64, opsin: M3, bias: [f64; 3], float_fallback: bool) -> Want {
        let srgb = to_xyz(pr_xy(&JxlPrimaries::SRGB), wp_xy(&JxlWhitePoint::D65));
        match e {
            JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, .. } => {
                let w = wp_xy(white_point);
                let own = to_xyz(pr_xy(primaries), w);
                let conv = mul(&inv(&mul(&adapt(w), &own)), &mul(&adapt(wp_xy(&JxlWhitePoint::D65)), &srgb));
                Want { m: mul(&conv, &opsin), lum: own[1], gray: false, cv: curve(transfer_function), nits, bias, exact: *primaries == JxlPrimaries::SRGB && *white_point == JxlWhitePoint::D65 }
            }
            JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, .. } => {
                let l = [0.2126, 0.7152, 0.0722];
                let cv = match white_point {
                    JxlWhitePoint::D65 => curve(transfer_function),
                    _ if float_fallback => Cv::Linear,
                    _ => Cv::Srgb,
                };
                Want { m: mul(&[l; 3], &opsin), lum: l, gray: true, cv, nits, bias, exact: true }
            }
            _ => unreachable!(),
        }
    }
    /// Least and greatest acceptable values.
    fn range(&self, [x, y, b]: [f64; 3]) -> Option<[(f64, f64); 3]> {
        let k = 255.0 / self.nits;
        let lms = [y + x, y - x, b];
        let lms: [f64; 3] = std::array::from_fn(|i| ((lms[i] - self.bias[i].cbrt()).powi(3) + self.bias[i]) * k);
        let v = app(&self.m, lms);
        // rounding of the sums
        // (sRGB's primaries are known to five digits)
        let eps: f64 = if self.exact { 3e-6 } else { 8e-5 } * (0..3).map(|i| (0..3).map(|j| (self.m[i][j] * lms[j]).abs()).sum::<f64>()).fold(0.5, f64::max);
        if v.iter().any(|t| t.abs() > 1.0) && self.cv != Cv::Linear {
            return None;
        }
        let f = |d: f64| -> [f64; 3] {
            let mut u = v.map(|t| t + d);
            match self.cv {
                Cv::Pq => u = u.map(|t| t * self.nits / 10000.0),
                Cv::Hlg => {
                    let e = 1.0 / hlg_gamma(self.nits) - 1.0;
                    let l: f64 = (0..3).map(|i| u[i] * self.lum[i]).sum();
                    if e.abs() > 0.01 {
                        u = u.map(|t| t * l.powf(e));
                    }
                }
                _ => {}
            }
            u.map(|t| encode(self.cv, t))
        };
        if self.cv == Cv::Hlg && (0..3).map(|i| v[i] * self.lum[i]).sum::<f64>() < 1e-3 {
            return None;
        }
        let tol = match self.cv {
            Cv::Linear => eps,
            Cv::Srgb | Cv::Bt709 => 2e-6,
            Cv::Pq => 4e-6,
            Cv::Hlg => 1e-4,
            _ => 8e-5,
        };
        let (a, b) = (f(-eps), f(eps));
        Some(std::array::from_fn(|i| (a[i].min(b[i]) - tol, a[i].max(b[i]) + tol)))
    }
}
fn pixels_case(e: &JxlColorEncoding, nits: u16, opsin: Option<[u16; 16]>) -> CaseResult {
    let h16 = |h: u16| super::formats::from_f16(h);
    let mut img = Image::new(16, 16);
    img.xyb = true;
    img.color = header(e);
    let h = super::formats::to_f16(nits as f32);
    if nits != 255 {
        img.tone = Tone { intensity: h, ..Tone::dflt() };
    }
    let mut o: M3 = OPSIN;
    let mut bias = [-BIAS; 3];
    if let Some(op) = opsin {
        img.opsin = Some(op);
        o = std::array::from_fn(|i| std::array::from_fn(|j| h16(op[i * 3 + j])));
        bias = std::array::from_fn(|i| h16(op[9 + i]));
    }
    let f = Frame::new(&img);
    let vals = |c: usize, p: usize| -> i32 {
        match c {
            0 => ((p * 37) % 101) as i32 * 4 + (p % 3) as i32,
            1 => ((p * 11) % 23) as i32 * 6 - 66,
            _ => ((p * 7) % 29) as i32 * 5 - 70,
        }
    };
    let (bytes, _) = simple(&img, &f, &ModOpts::new(crate::enc::modular::Tree::single(0), 16), &mut |_, c, x, y| vals(c, y * 16 + x));
    let d = open(&bytes)?;
    let JxlColorProfile::Simple(out) = d.output_color_profile().clone() else { return Err("output profile".into()) };
    let emb = d.embedded_color_profile();
    ensure!(matches!(emb, JxlColorProfile::Simple(s) if same(s, e)), "{e:?}: embedded profile is another");
    let gray_other = matches!(e, JxlColorEncoding::GrayscaleColorSpace { white_point, .. } if *white_point != JxlWhitePoint::D65);
    let want_out = if gray_other { JxlColorEncoding::linear_srgb(true) } else { e.clone() };
    ensure!(same(&out, &want_out), "{e:?}: output profile is {out:?}");
    let w = Want::new(e, super::formats::from_f16(h), o, bias, true);
    let r = oneshot(&bytes, &Opts::default(), FmtSel::F32All);
    ensure!(r.frames.len() == 1, "{e:?}: {} frames, {:?}", r.frames.len(), r.end);
    let px = r.frames[0].f32s(0);
    let n = if w.gray { 1 } else { 3 };
    ensure!(px.len() == 256 * n, "{} samples", px.len());
    let mut k = 0;
    for p in 0..256 {
        let (yy, xx, bb) = (vals(0, p) as f64, vals(1, p) as f64, vals(2, p) as f64);
        let Some(rg) = w.range([xx / 4096.0, yy / 512.0, (bb + yy) / 256.0]) else { continue };
        for c in 0..n {
            let g = px[p * n + c] as f64;
            ensure!(g >= rg[c].0 && g <= rg[c].1, "{e:?} at {nits} nits: pixel {p} component {c} is {g}, expected {:?}", rg[c]);
            k += 1;
        }
    }
    assert!(k > 90, "jxlmc-harness: {e:?}: only {k} samples compared");
    Ok(Obs::batch(hash(&(px.iter().map(|x| x.to_bits()).collect::<Vec<_>>())), k, k))
}

pub fn c19(ctx: &Ctx) {
    ctx.set_rule("profiles made from colour descriptions are well formed and say what the description says; curves agree with their formulas; XYB pictures come out in the described space");
    ctx.assume("tolerances: 1e-4 (matrices), 2e-4 (curves of profiles), 0.75/255 (tone-mapping table), for the curves a few times the documented error");
    let mut all = vec![JxlColorEncoding::XYB { rendering_intent: RenderingIntent::Perceptual }];
    for w in wps() {
        for t in tfs() {
            for r in INTENTS {
                all.push(JxlColorEncoding::GrayscaleColorSpace { white_point: w.clone(), transfer_function: t.clone(), rendering_intent: r });
                for p in prs() {
                    all.push(JxlColorEncoding::RgbColorSpace { white_point: w.clone(), primaries: p, transfer_function: t.clone(), rendering_intent: r });
                }
            }
        }
    }
    ctx.note(format!("{} descriptions", all.len()));
    let seen = std::sync::Mutex::new(std::collections::HashMap::new());
    ctx.par(all.len(), |i| {
        let e = &all[i];
        ctx.case(&format!("profile/{}", name(e)), || {
            // what the format cannot hold as fixed point is refused
            let t = match e {
                JxlColorEncoding::RgbColorSpace { transfer_function: t, .. } | JxlColorEncoding::GrayscaleColorSpace { transfer_function: t, .. } => Some(t),
                _ => None,
            };
            let _ = t;
            let h = check_profile(e)?;
            if let Some(o) = seen.lock().unwrap().insert(h, i) {
                if o != i {
                    return Err(format!("{e:?} and {:?} have the same profile", all[o]));
                }
            }
            Ok(Obs::new(h, 1))
        });
    });
    for r in &INTENTS[1..] {
        ctx.case(&format!("profile/refused/XYB {r:?}"), || {
            let e = JxlColorEncoding::XYB { rendering_intent: *r };
            ensure!(e.maybe_create_profile().is_err() && JxlColorProfile::Simple(e).try_as_icc().is_none(), "accepted");
            Ok(Obs::new(*r as u64, 1))
        });
    }
    // descriptions no profile can express: no profile, rather than a wrong one
    let bad_w = [(-0.1, 0.3), (1.1, 0.3), (0.3, 0.0), (0.3, -0.2), (0.3, 1.5), (f32::NAN, 0.3), (0.3, f32::NAN)];
    for (wx, wy) in bad_w {
        ctx.case(&format!("profile/refused/white {wx} {wy}"), || {
            let white_point = JxlWhitePoint::Chromaticity { wx, wy };
            let e = JxlColorEncoding::RgbColorSpace { white_point, primaries: JxlPrimaries::SRGB, transfer_function: JxlTransferFunction::SRGB, rendering_intent: INTENTS[0] };
            ensure!(JxlColorProfile::Simple(e.clone()).try_as_icc().is_none(), "{e:?} has a profile");
            Ok(Obs::new(hash(&(wx.to_bits(), wy.to_bits())), 1))
        });
    }
    for (n, p) in [
        ("same", [0.3, 0.3, 0.3, 0.3, 0.1, 0.1]),
        ("line", [0.1, 0.1, 0.2, 0.2, 0.3, 0.3]),
        ("nan", [f32::NAN, 0.1, 0.2, 0.2, 0.3, 0.3]),
    ] {
        ctx.case(&format!("profile/refused/primaries {n}"), || {
            let [rx, ry, gx, gy, bx, by] = p;
            let e = JxlColorEncoding::RgbColorSpace {
                white_point: JxlWhitePoint::D65,
                primaries: JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by },
                transfer_function: JxlTransferFunction::SRGB,
                rendering_intent: INTENTS[0],
            };
            if let Some(b) = JxlColorProfile::Simple(e.clone()).try_as_icc() {
                Icc::parse(&b)?;
                ensure!(n == "line", "{e:?} has a profile");
            }
            Ok(Obs::new(hash(&n), 1))
        });
    }
    // curves
    let xs = grid(ctx);
    ctx.note(format!("{} points of each curve", xs.len()));
    curves::<ScalarDescriptor>(ctx, &xs, "scalar");
    #[cfg(target_arch = "x86_64")]
    {
        curves::<Sse42Descriptor>(ctx, &xs, "sse42");
        curves::<AvxDescriptor>(ctx, &xs, "avx");
        curves::<Avx512Descriptor>(ctx, &xs, "avx512");
    }
    functions(ctx);
    // through the decoder
    let h = super::formats::to_f16;
    let custom: [u16; 16] = std::array::from_fn(|i| h([9.5, -8.0, -0.25, -3.0, 4.0, -0.125, -3.5, 2.5, 1.875, -0.004, -0.005, -0.006, 0.9, 0.9, 0.9, 0.125][i]));
    let list: Vec<&JxlColorEncoding> = all.iter().filter(|e| match e {
        JxlColorEncoding::XYB { .. } => false,
        e => intent_of(e) == RenderingIntent::Relative || !ctx.quick(),
    }).collect();
    let nits: &[u16] = if ctx.quick() { &[255, 400, 1000] } else { &[255, 80, 400, 1000, 4000, 10000] };
    ctx.par(list.len(), |i| {
        for n in nits {
            for op in [None, Some(custom)] {
                if op.is_some() && *n != 1000 {
                    continue;
                }
                ctx.case(&format!("pixels/{}/{n}/{}", name(list[i]), op.is_some()), || pixels_case(list[i], *n, op));
            }
        }
    });
    // equality of encodings ignores the intent only
    ctx.case("equality", || {
        let mut k = 0;
        for a in &all {
            for b in &all {
                let na = name(a).replace("DisplayP3", "RGB_D65_DCI_Per_SRG").replace("Rec2100PQ", "RGB_D65_202_Rel_PeQ").replace("Rec2100HLG", "RGB_D65_202_Rel_HLG");
                if k % 97 == 0 || std::ptr::eq(a, b) {
                    let strip = |e: &JxlColorEncoding| match e.clone() {
                        JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, .. } => JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent: INTENTS[0] },
                        JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, .. } => JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, rendering_intent: INTENTS[0] },
                        x => x,
                    };
                    let want = strip(a) == strip(b) && !matches!(a, JxlColorEncoding::XYB { .. });
                    let got = JxlColorProfile::Simple(a.clone()).same_color_encoding(&JxlColorProfile::Simple(b.clone()));
                    ensure!(want == got, "{na}: {a:?} and {b:?}: {got}");
                }
                k += 1;
            }
        }
        Ok(Obs::batch(9, k / 97, k / 97))
    });
}
