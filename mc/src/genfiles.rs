//! Small files made by the mini-encoder, one or more per feature, used as starting points of the API-level explorations.
use crate::enc::Bw;
use crate::enc::feat::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::props::compose;
use crate::props::lossless::hash3;

/// A frame with the options of its modular part and an optional prefix of the first section.
pub struct Fr<'a> {
    pub f: Frame,
    pub o: ModOpts,
    pub prefix: Prefix<'a>,
    pub order: Option<Vec<usize>>,
}
impl<'a> Fr<'a> {
    pub fn new(img: &Image, f: Frame) -> Fr<'a> {
        let mut o = ModOpts::new(Tree::single(5), img.depth.bits);
        o.split_ctx = true;
        Fr { f, o, prefix: None, order: None }
    }
    pub fn with(mut self, p: &'a dyn Fn(&mut Bw)) -> Self {
        self.prefix = Some(p);
        self
    }
    pub fn tr(mut self, t: Vec<Tr>) -> Self {
        self.o.trs = t;
        self
    }
    pub fn order(mut self, o: Vec<usize>) -> Self {
        self.order = Some(o);
        self
    }
}
/// Sample values with smooth parts and edges.
pub fn val(nc: usize, k: usize, c: usize, x: usize, y: usize) -> i32 {
    let s = (x * 3 + y * 2 + 31 * c + 57 * k) as i32 % 256;
    let h = hash3(x as u32 / 5 + 100 * k as u32, y as u32 / 3, c as u32);
    if c >= nc {
        return [0, 255, 128, 200][(h % 4) as usize];
    }
    if h % 3 == 0 { (s + (h >> 8) as i32 % 40) % 256 } else { s }
}
pub fn stream(img: &Image, frames: &[Fr]) -> Vec<u8> {
    let mut bw = Bw::new();
    img.write(&mut bw);
    add(img, frames, &mut bw, 0);
    bw.bytes
}
thread_local! {
    /// Where the frames of the last stream written by this thread begin.
    pub static STARTS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn add(img: &Image, frames: &[Fr], bw: &mut Bw, base: usize) {
    let nc = img.colors();
    STARTS.with(|s| s.borrow_mut().clear());
    for (k, fr) in frames.iter().enumerate() {
        STARTS.with(|s| s.borrow_mut().push(bw.bytes.len()));
        let (secs, _) = modular_frame(img, &fr.f, &fr.o, fr.prefix, &mut |_, c, x, y| val(nc, base + k, c, x, y));
        assemble(img, &fr.f, &secs, fr.order.as_deref(), bw);
    }
}
pub fn anim(i: Image) -> Image {
    Image { anim: Some(Anim { num: 100, den: 1, loops: 0, timecodes: false }), ..i }
}
fn ec(mut i: Image, v: Vec<Ec>) -> Image {
    i.ecs = v;
    i
}
fn fr(img: &Image, g: impl FnOnce(&mut Frame)) -> Frame {
    let mut f = Frame::new(img);
    g(&mut f);
    f
}
/// The parts of a codestream in `jxlp` boxes, in the given storage order.
pub fn jxlp(parts: &[&[u8]], order: &[usize], version: u32) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend(ftyp(version));
    for i in order {
        let mut d = be32(*i as u32 | if i + 1 == parts.len() { 0x8000_0000 } else { 0 }).to_vec();
        d.extend(parts[*i]);
        v.extend(bx(b"jxlp", &d));
    }
    v
}
pub fn jxlc(cs: &[u8]) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend(ftyp(0));
    v.extend(bx(b"jxlc", cs));
    v
}
/// A box with a 64-bit size field.
pub fn bx64(ty: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut v = be32(1).to_vec();
    v.extend(ty);
    v.extend((data.len() as u64 + 16).to_be_bytes());
    v.extend(data);
    v
}
/// A box that goes to the end of the file.
pub fn bx0(ty: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut v = be32(0).to_vec();
    v.extend(ty);
    v.extend(data);
    v
}
/// An animation whose frames depend on several slots, with hidden and reference-only frames.
pub fn slots() -> Vec<u8> {
    let img = anim(ec(Image::new(9, 7), vec![Ec::alpha(), Ec::of(16)]));
    let b = |mode, source| Blend { mode, alpha: 0, clamp: false, source };
    let mk = |crop, dur, save, src: [u32; 3], mode: u32, last: bool| {
        fr(&img, |f| {
            f.crop = crop;
            f.duration = dur;
            f.save_as = save;
            f.is_last = last;
            f.blend = b(mode, src[0]);
            f.ec_blend = vec![b(mode, src[1]), b(mode, src[2])];
            f.name = format!("f{dur}{save}").into_bytes();
        })
    };
    let frames = [
        mk(None, 0, 1, [0; 3], 0, false),
        mk(Some((1, 1, 4, 3)), 5, 2, [1, 1, 1], 2, false),
        mk(None, 3, 0, [0; 3], 0, false),
        fr(&img, |f| {
            f.ty = 2;
            f.is_last = false;
            f.save_as = 3;
        }),
        mk(Some((-2, 2, 6, 4)), 4, 1, [0, 2, 3], 1, false),
        mk(Some((2, -1, 3, 5)), 0, 0, [1, 0, 2], 2, false),
        mk(Some((0, 0, 9, 2)), 7, 3, [3, 3, 0], 0, false),
        mk(None, 2, 0, [0; 3], 0, false),
        mk(Some((4, 4, 9, 9)), 6, 0, [3, 2, 1], 1, true),
    ];
    stream(&img, &frames.into_iter().map(|f| Fr::new(&img, f)).collect::<Vec<_>>())
}
/// A short animation with three frames per kind of dependency.
pub fn chain() -> Vec<u8> {
    let img = anim(Image::new(6, 5));
    let mut v = vec![];
    for k in 0..5u32 {
        v.push(Fr::new(
            &img,
            fr(&img, |f| {
                f.duration = 1 + k;
                f.is_last = k == 4;
                f.save_as = if k == 4 { 0 } else { k % 2 };
                if k % 3 != 0 {
                    f.crop = Some((k as i32 - 1, 1, 3, 3));
                    f.blend = Blend { mode: k % 2, alpha: 0, clamp: false, source: (k + 1) % 2 };
                }
                f.name = vec![b'a' + k as u8];
            }),
        ));
    }
    stream(&img, &v)
}
pub fn multi_group(gss: u32, w: u32, h: u32, passes: Option<Passes>, sq: bool, perm: bool) -> Vec<u8> {
    let img = ec(Image::new(w, h), vec![Ec::alpha()]);
    let f = fr(&img, |f| {
        f.gss = gss;
        if let Some(p) = passes {
            f.passes = p;
        }
    });
    let n = f.num_sections(&img);
    let mut x = Fr::new(&img, f);
    if sq {
        x = x.tr(vec![Tr::Squeeze(vec![])]);
    } else {
        x = x.tr(vec![Tr::Rct(0, 6)]);
    }
    if perm {
        x = x.order((0..n).rev().collect());
    }
    stream(&img, &[x])
}
pub fn featured(noise_: bool, up: u32, xyb: bool) -> Vec<u8> {
    let img = Image { xyb, ..ec(Image::new(23, 17), vec![Ec::alpha()]) };
    let b = |m| vec![PBlend::of(m), PBlend::of(if m == 3 { 0 } else { m })];
    let ps = vec![
        Patch { src: 2, rect: (1, 0, 4, 3), at: vec![((2, 1), b(2)), ((0, 3), b(1)), ((3, 2), b(4))] },
        Patch { src: 2, rect: (0, 2, 2, 2), at: vec![((1, 5), b(3))] },
    ];
    let sp = vec![Spl {
        start: (3, 2),
        points: vec![(5, 4), (-2, 3)],
        dct: [vec![10, 5], vec![120, -20, 7], vec![60], vec![6, 2]],
    }];
    let prefix = |bw: &mut Bw| {
        patches(bw, &ps, 1);
        splines(bw, 0, &sp);
        if noise_ {
            noise(bw, &[100, 200, 300, 400, 500, 600, 700, 800]);
        }
    };
    let r = fr(&img, |f| {
        f.ty = 2;
        f.is_last = false;
        f.save_as = 2;
        f.before_ct = true;
    });
    let m = fr(&img, |f| {
        f.flags = 2 + 16 + noise_ as u64;
        f.up = up;
        f.ec_up = vec![up];
        if xyb {
            f.rf = Rf::dflt();
        }
    });
    stream(&img, &[Fr::new(&img, r), Fr::new(&img, m).with(&prefix)])
}
/// Frames larger than the canvas on some sides.
pub fn wide() -> Vec<u8> {
    let img = anim(ec(Image::new(9, 7), vec![Ec::alpha()]));
    let v: Vec<Fr> = [(None, 0), (Some((-3i32, -2i32, 15u32, 11u32)), 2), (Some((-4, 1, 20, 3)), 1), (Some((2, -5, 3, 15)), 2), (Some((-5, 0, 6, 7)), 4)]
        .into_iter()
        .enumerate()
        .map(|(k, (crop, mode))| {
            Fr::new(
                &img,
                fr(&img, |f| {
                    f.crop = crop;
                    f.duration = 1 + k as u32;
                    f.is_last = k == 4;
                    f.save_as = if k == 4 { 0 } else { 1 };
                    f.blend = Blend { mode, alpha: 0, clamp: false, source: (k > 0) as u32 };
                    f.ec_blend = vec![f.blend.clone()];
                }),
            )
        })
        .collect();
    stream(&img, &v)
}
pub fn previewed() -> Vec<u8> {
    let img = Image { preview: Some((8, 8)), ..anim(Image::new(10, 6)) };
    let pimg = Image { w: 8, h: 8, ..img.clone() };
    let mut bw = Bw::new();
    img.write(&mut bw);
    add(&pimg, &[Fr::new(&pimg, Frame::new(&pimg))], &mut bw, 3);
    let v: Vec<Fr> = (0..3u32)
        .map(|k| {
            Fr::new(
                &img,
                fr(&img, |f| {
                    f.duration = k + 1;
                    f.is_last = k == 2;
                    f.name = format!("p{k}").into_bytes();
                }),
            )
        })
        .collect();
    add(&img, &v, &mut bw, 0);
    bw.bytes
}
pub fn subsampled() -> Vec<u8> {
    let img = ec(Image::new(21, 14), vec![Ec { dim_shift: 1, ..Ec::alpha() }]);
    let f = fr(&img, |f| {
        f.ycbcr = true;
        f.jpeg_up = [0, 1, 0];
    });
    stream(&img, &[Fr::new(&img, f)])
}
pub fn oriented(o: u32, animated: bool) -> Vec<u8> {
    let mut img = ec(Image::new(11, 5), vec![Ec::alpha()]);
    if animated {
        img = anim(img);
    }
    img.orientation = o;
    let mut v = vec![];
    if animated {
        v.push(Fr::new(
            &img,
            fr(&img, |f| {
                f.is_last = false;
                f.duration = 1;
                f.save_as = 1;
            }),
        ));
    }
    v.push(Fr::new(
        &img,
        fr(&img, |f| {
            f.duration = animated as u32;
            if animated {
                f.crop = Some((2, -1, 6, 4));
                f.blend = Blend { mode: 2, alpha: 0, clamp: false, source: 1 };
                f.ec_blend = vec![f.blend.clone()];
            }
        }),
    ));
    stream(&img, &v)
}
pub fn deep(bits: u32, gray: bool) -> Vec<u8> {
    let mut img = if gray { Image::gray(12, 9) } else { Image::new(12, 9) };
    img.depth = Depth::int(bits);
    img.ecs = vec![Ec { depth: Depth::int(bits), ..Ec::alpha() }];
    let m = (1i64 << bits) - 1;
    let f = Frame::new(&img);
    let o = ModOpts::new(Tree::single(5), bits);
    let (d, _) = simple(&img, &f, &o, &mut |_, c, x, y| (val(3, 0, c, x, y) as i64 * m / 255) as i32);
    d
}
/// All of them: name and file.
pub fn files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut p = |n: &str, d: Vec<u8>| v.push((format!("gen:{n}"), d));
    let s = slots();
    let c = chain();
    p("slots", s.clone());
    p("chain", c.clone());
    p("wide", wide());
    p("deep5g", deep(5, true));
    p("deep12", deep(12, false));
    p("deep16", deep(16, false));
    p("subsampled", subsampled());
    p("preview", previewed());
    p("patches", featured(false, 1, false));
    p("patches_noise_up2", featured(true, 2, false));
    p("patches_noise_xyb", featured(true, 1, true));
    for o in [2, 5, 6, 8] {
        p(&format!("orient{o}"), oriented(o, false));
        p(&format!("orient{o}anim"), oriented(o, true));
    }
    p("groups", multi_group(0, 140, 131, None, false, false));
    p("groups_rev", multi_group(0, 131, 135, None, false, true));
    p("groups_sq", multi_group(0, 150, 140, None, true, false));
    p(
        "groups_sq_p3",
        multi_group(0, 133, 140, Some(Passes { num: 3, shift: vec![0, 0], ds: vec![(4, 0), (2, 1)] }), true, false),
    );
    p("squeeze", multi_group(1, 40, 30, None, true, false));
    p("lfgroups", multi_group(0, 1030, 9, None, true, true));
    {
        let img = anim(Image::new(140, 20));
        let v: Vec<Fr> = (0..3u32)
            .map(|k| {
                Fr::new(
                    &img,
                    fr(&img, |f| {
                        f.gss = 0;
                        f.duration = 1;
                        f.is_last = k == 2;
                        f.save_as = k % 2;
                        if k > 0 {
                            f.crop = Some((5, -3, 135, 20));
                            f.blend = Blend { mode: 1, alpha: 0, clamp: false, source: (k + 1) % 2 };
                        }
                    }),
                )
            })
            .collect();
        p("groups_anim", stream(&img, &v));
    }
    // a few pixels more than one group
    for (n, w, h, ecs, tr, filt) in [
        ("tiny_gray", 129, 1, 0, vec![], false),
        ("tiny_rct", 130, 2, 1, vec![Tr::Rct(0, 6)], false),
        ("tiny_tall", 3, 130, 0, vec![Tr::Rct(0, 3)], false),
        ("tiny_sq", 131, 3, 0, vec![Tr::Squeeze(vec![])], false),
        ("tiny_filters", 130, 3, 1, vec![], true),
        ("tiny_2x2", 129, 129, 0, vec![], true),
        ("tiny_3", 257, 1, 0, vec![], true),
    ] {
        let mut img = if n == "tiny_gray" { Image::gray(w, h) } else { Image::new(w, h) };
        if ecs > 0 {
            img = ec(img, vec![Ec::alpha()]);
        }
        let f = fr(&img, |f| {
            f.gss = 0;
            if filt {
                f.rf = Rf::dflt();
            }
        });
        p(n, stream(&img, &[Fr::new(&img, f).tr(tr)]));
    }
    // VarDCT frames
    {
        use crate::props::vardct::Cfg;
        let base = Cfg { smooth: true, ..Cfg::default() };
        let mut q = |n: &str, c: Cfg| p(n, c.file().2.data);
        q("vd_one", Cfg { size: (24, 17), seed: 1, ts: 1, ctx: 2, mats: 3, code: 5, ..base.clone() });
        q("vd_passes", Cfg { size: (259, 7), seed: 2, ts: 3, passes: 2, orders: 3, hists: 2, filter: 1, ecs: 1, code: 2, ..base.clone() });
        q("vd_xyb", Cfg { size: (8, 260), seed: 3, ts: 3, passes: 1, quant: 4, filter: 4, ecs: 2, xyb: 1, code: 3, ..base.clone() });
        q("vd_420", Cfg { size: (260, 10), seed: 4, ts: 0, passes: 4, chroma: 0b01_10_01 ^ 0b11, ..base.clone() });
        q("vd_lf", Cfg { size: (261, 9), seed: 5, ts: 2, passes: 1, lf_frame: true, noise: true, ..base.clone() });
    }
    // containers
    let b = |d: &[u8], t: &[&[u8]]| {
        let mut v = d.to_vec();
        for x in t {
            v.extend_from_slice(x);
        }
        v
    };
    let exif = bx(b"Exif", &[0u8; 150]);
    let none = bx(b"free", &[]);
    p("jxlc_boxes", {
        let mut v = SIG.to_vec();
        v.extend(ftyp(0));
        b(&v, &[&exif, &none, &bx64(b"jxlc", &c), &bx(b"xml ", b"abc")])
    });
    p("jxlc_eof", {
        let mut v = SIG.to_vec();
        v.extend(ftyp(1));
        b(&v, &[&none, &bx0(b"jxlc", &c)])
    });
    let cut = |d: &'static [usize], s: &[u8]| -> Vec<Vec<u8>> {
        let mut r = vec![];
        let mut a = 0;
        for k in d {
            let e = s.len() * k / 100;
            r.push(s[a..e].to_vec());
            a = e;
        }
        r.push(s[a..].to_vec());
        r
    };
    let one = featured(false, 1, false);
    let big = multi_group(0, 140, 131, None, false, false);
    let trail = [&one[..], &[7u8; 40]].concat();
    for (n, d, at, order, ver) in [
        ("jxlp3", &c, &[30usize, 60][..], vec![0usize, 1, 2], 0u32),
        ("jxlp_empty", &c, &[0, 40, 40, 100], vec![0, 1, 2, 3, 4], 0),
        // out of order: frames may only start while no part is kept back
        ("jxlp_ooo", &one, &[50, 75], vec![0, 2, 1], 1),
        ("jxlp_ooo4", &one, &[55, 70, 90], vec![0, 3, 1, 2], 1),
        ("jxlp_ooo5", &one, &[55, 60, 75, 90], vec![0, 3, 2, 1, 4], 1),
        ("jxlp_ooo_trail", &trail, &[45, 70], vec![0, 2, 1], 1),
        ("jxlp_ooo_anim", &s, &[8, 10, 11], vec![0, 2, 1, 3], 1),
        ("jxlp_ooo_empty", &one, &[55, 60, 60, 90], vec![0, 3, 2, 1, 4], 1),
        ("groups_ooo", &big, &[20, 50, 75], vec![0, 2, 3, 1], 1),
        ("groups_jxlp", &big, &[20, 50, 75], vec![0, 1, 2, 3], 0),
        // frames starting inside kept-back parts: not accepted
        ("jxlp_ooo_bad", &c, &[5, 90], vec![0, 2, 1], 1),
    ] {
        let at: &'static [usize] = Box::leak(at.to_vec().into_boxed_slice());
        let parts = cut(at, d);
        let r: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
        p(n, jxlp(&r, &order, ver));
    }
    {
        // 64-bit part headers, an unrelated box between the parts
        let parts = cut(&[45], &s);
        let mut v = SIG.to_vec();
        v.extend(ftyp(0));
        let h = |i: u32, d: &[u8]| [&be32(i)[..], d].concat();
        v.extend(bx64(b"jxlp", &h(0, &parts[0])));
        v.extend(&exif);
        v.extend(bx64(b"jxlp", &h(0x8000_0001, &parts[1])));
        p("jxlp64", v);
    }
    let _ = compose::CROPS;
    v
}
