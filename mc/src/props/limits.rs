//! C22: the sample limit around every size that a file can state, and the memory used for what is only claimed.
use crate::dec::*;
use crate::enc::ent::*;
use crate::enc::feat::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::enc::{Bw, D::*, claiming};
use crate::engine::*;
use crate::genfiles::{Fr, add, anim, bx64};

/// A file: the numbers of samples that are checked with its header, and per frame in coding order.
struct Spec {
    name: String,
    data: Vec<u8>,
    header: Vec<u128>,
    /// (samples, whether the frame is a preview, whether it ends a shown frame)
    frames: Vec<(u128, bool, bool)>,
}
fn samples(w: usize, h: usize, necs: usize) -> u128 {
    w.max(16) as u128 * h as u128 * (3 + necs as u128)
}
fn spec(name: String, img: &Image, fs: Vec<Frame>) -> Spec {
    let n = img.ecs.len();
    let mut bw = Bw::new();
    img.write(&mut bw);
    let mut header = vec![samples(img.w as usize, img.h as usize, n)];
    let mut frames = vec![];
    if let Some((w, h)) = img.preview {
        let p = Image { w, h, ..img.clone() };
        add(&p, &[Fr::new(&p, Frame::new(&p))], &mut bw, 7);
        header.push(samples(w as usize, h as usize, n));
        frames.push((samples(w as usize, h as usize, n), true, false));
    }
    for f in &fs {
        let (w, h) = f.size_up(img);
        frames.push((samples(w, h, n), false, f.visible()));
    }
    let v: Vec<Fr> = fs.into_iter().map(|f| Fr::new(img, f)).collect();
    add(img, &v, &mut bw, 0);
    Spec { name, data: bw.bytes, header, frames }
}
fn ecs(n: usize) -> Vec<Ec> {
    [Ec::alpha(), Ec::of(1), Ec { dim_shift: 1, ..Ec::of(16) }, Ec::of(3)][..n].to_vec()
}
fn with_ecs(mut i: Image, n: usize) -> Image {
    i.ecs = ecs(n);
    i
}
fn specs(quick: bool) -> Vec<Spec> {
    let mut v = vec![];
    let sizes = [(40u32, 30u32), (1, 50), (15, 9), (16, 9), (17, 9), (50, 1), (1, 1), (130, 3)];
    for (w, h) in sizes {
        for n in [0, 1, 3] {
            for o in [1, 6] {
                let img = Image { orientation: o, ..with_ecs(Image::new(w, h), n) };
                v.push(spec(format!("image/{w}x{h}/{n}/{o}"), &img, vec![Frame::new(&img)]));
            }
        }
    }
    for (w, h) in [(64u32, 48u32), (8, 8), (5, 70), (200, 2)] {
        for n in [0, 2] {
            let img = Image { preview: Some((w, h)), ..with_ecs(Image::new(20, 20), n) };
            v.push(spec(format!("preview/{w}x{h}/{n}"), &img, vec![Frame::new(&img)]));
        }
    }
    // frames of another size than the image: regular, hidden, reference-only, with upsampling
    for (c, crop) in [(-5i32, -5i32, 60u32, 50u32), (3, 4, 5, 6), (-40, 0, 100, 20), (2, -30, 9, 90), (0, 0, 20, 20)].into_iter().enumerate() {
        for up in [1u32, 2, 4, 8] {
            for ty in [0u32, 2, 3] {
                for n in [0usize, 3] {
                    if quick && (c + up as usize + ty as usize) % 2 != 0 && n == 0 {
                        continue;
                    }
                    let img = anim(with_ecs(Image::new(20, 20), n));
                    let a = Frame { duration: 1, is_last: false, ..Frame::new(&img) };
                    let mut b = Frame { ty, up, crop: Some(crop), duration: (ty != 2) as u32, is_last: false, ..Frame::new(&img) };
                    for (k, e) in b.ec_up.iter_mut().enumerate() {
                        // in total at least the factor of the colours, at most 8
                        *e = if img.ecs[k].dim_shift > 0 { 4.min(up) } else { up };
                    }
                    if ty == 2 {
                        b.save_as = 1;
                        b.before_ct = true;
                    }
                    let z = Frame { duration: 3, ..Frame::new(&img) };
                    v.push(spec(format!("frame/{c}/up{up}/ty{ty}/{n}"), &img, vec![a, b, z]));
                }
            }
        }
    }
    // frames for low frequencies
    for level in 1..=4u32 {
        for (w, h) in [(90u32, 40u32), (900, 700), (8, 3000)] {
            let img = Image { xyb: true, ..Image::new(w, h) };
            let l = Frame { ty: 1, lf_level: level, is_last: false, ..Frame::new(&img) };
            v.push(spec(format!("lf/{level}/{w}"), &img, vec![l, Frame::new(&img)]));
        }
    }
    // growing frames
    let img = anim(Image::new(8, 8));
    let fs: Vec<Frame> = (0..6u32)
        .map(|k| Frame { crop: Some((0, 0, 8 + 10 * k, 9)), duration: k % 3, is_last: k == 5, save_as: k % 2, ..Frame::new(&img) })
        .map(|f| if f.is_last { Frame { save_as: 0, ..f } } else { f })
        .collect();
    v.push(spec("growing".into(), &img, fs));
    v
}
/// What has to happen with a limit: the item that is rejected (0: the header) or nothing.
fn rejected(s: &Spec, limit: Option<usize>) -> Option<usize> {
    let l = limit? as u128;
    if s.header.iter().any(|n| *n >= l) {
        return Some(0);
    }
    s.frames.iter().position(|f| f.0 >= l).map(|k| k + 1)
}
fn judge(s: &Spec, opts: &Opts, chunked: bool) -> Result<(u64, u64), String> {
    let free = Opts { sample_limit: None, ..opts.clone() };
    let cuts: Vec<usize> = if chunked { (1..=s.data.len()).collect() } else { vec![s.data.len()] };
    let what = |o: &Opts| {
        peak_alloc(|| {
            let mut sc = Script::new(&s.data, 0);
            run(&mut Plan::new(o), &mut sc, &cuts)
        })
    };
    let (want, peak_free) = what(&free);
    if want.end != End::Done {
        return Err(format!("jxlmc-harness: {}: {:?} without a limit", s.name, want.end));
    }
    let shown_before = |k: usize| s.frames[..k].iter().filter(|f| f.2 || f.1 && !opts.skip_preview).count();
    let mut limits: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(usize::MAX)];
    for n in s.header.iter().copied().chain(s.frames.iter().map(|f| f.0)) {
        let n = n as usize;
        limits.extend([n - 1, n, n + 1, n / 2, 2 * n].map(Some));
    }
    limits.sort();
    limits.dedup();
    let (mut d, mut k) = (0, 0);
    for l in limits {
        let (got, peak) = what(&Opts { sample_limit: l, ..opts.clone() });
        d = hash(&(d, got.digest()));
        k += 1;
        let fail = |m: String| Err(format!("{} limit {l:?} {opts:?}: {m}", s.name));
        let Some(r) = rejected(s, l) else {
            if let Some(x) = want.diff(&got) {
                return fail(format!("not over the limit, but {x}"));
            }
            continue;
        };
        let End::Error(_) = got.end else { return fail(format!("item {r} is over the limit, but the decode ends with {:?}", got.end)) };
        if r == 0 {
            if got.info.is_some() || !got.frames.is_empty() {
                return fail("the header is over the limit, but information is shown".into());
            }
            if peak > 400_000 + 16 * s.data.len() as u64 {
                return fail(format!("{peak} bytes allocated before the header was rejected"));
            }
            continue;
        }
        let n = shown_before(r - 1);
        if opts.scan_only {
            if got.scanned.len() > want.scanned.len() || got.scanned[..] != want.scanned[..got.scanned.len()] {
                return fail("frames reported by the scan differ".into());
            }
            continue;
        }
        // a frame that is shown only when a later one is complete may or may not have been given out
        let m = got.frames.len();
        if m > want.frames.len() || m > n || m + 1 < n || got.frames.iter().zip(&want.frames).any(|(a, b)| frame_diff(a, b).is_some()) {
            return fail(format!("item {r} is over the limit: {m} frames were given out, {n} come before it; or their pixels differ"));
        }
        if peak > peak_free + 16 * s.data.len() as u64 + 400_000 {
            return fail(format!("{peak} bytes allocated, {peak_free} without a limit"));
        }
        if r == 1 && peak > 400_000 + 16 * s.data.len() as u64 {
            return fail(format!("{peak} bytes allocated before the first frame was rejected"));
        }
    }
    Ok((d, k))
}
fn limits(ctx: &Ctx) {
    let ss = specs(ctx.quick());
    ctx.note(format!("{} files with sizes around the limit", ss.len()));
    ctx.par(ss.len(), |i| {
        let s = &ss[i];
        ctx.case(&format!("limit/{}", s.name), || {
            let (mut d, mut n) = (0, 0);
            for (skip_preview, scan_only, adjust) in [(true, false, true), (false, false, true), (true, true, true), (true, false, false)] {
                let o = Opts { skip_preview, scan_only, adjust_orientation: adjust, ..Opts::default() };
                for chunked in [false, true] {
                    if ctx.quick() && chunked && s.data.len() > 1500 {
                        continue;
                    }
                    let (x, k) = judge(s, &o, chunked)?;
                    d = hash(&(d, x));
                    n += k;
                }
            }
            Ok(Obs::batch(d, n, n))
        });
    });
}
/// Sizes that are only claimed: headers alone, at all magnitudes, with and without a limit.
fn claims(ctx: &Ctx) {
    let mut dims: Vec<(u32, u32)> = vec![];
    let edge: Vec<u32> = vec![1, 255, 256, 257, 1 << 13, 1 << 16, (1 << 18) + 1, 1 << 22, 1 << 26, (1 << 30) - 1, 1 << 30];
    for w in &edge {
        for h in &edge {
            dims.push((*w, *h));
        }
    }
    let limits = [None, Some(1usize << 20), Some(40_000_000), Some(1 << 40), Some(usize::MAX)];
    ctx.par(dims.len(), |i| {
        let (w, h) = dims[i];
        ctx.case(&format!("claim/{w}x{h}"), || {
            let (mut d, mut n) = (0, 0);
            for necs in [0usize, 1, 40, 255] {
                let mut img = Image::new(w, h);
                img.ecs = vec![Ec::of(1); necs];
                // the image itself, or a frame of that size in a small image
                for inner in [false, true] {
                    let (img, crop) = if inner { (Image { w: 10, h: 10, ..img.clone() }, Some((0, 0, w, h))) } else { (img.clone(), None) };
                    for gss in [0u32, 3] {
                        for passes in [1u32, 3] {
                            let f = Frame { crop, gss, passes: Passes { num: passes, shift: vec![0; passes as usize - 1], ds: vec![] }, ..Frame::new(&img) };
                            for tail in 0..3 {
                                let mut bw = Bw::new();
                                img.write(&mut bw);
                                bw.align();
                                f.write(&mut bw, &img);
                                // then: the end; sections of length 0; sections that claim to be long
                                match tail {
                                    0 => {}
                                    1 => {
                                        bw.b(false);
                                        bw.align();
                                        (0..200).for_each(|_| bw.u(12, 0));
                                    }
                                    _ => {
                                        bw.b(false);
                                        bw.align();
                                        (0..40).for_each(|_| bw.u(32, u64::from(u32::MAX)));
                                    }
                                }
                                for limit in limits {
                                    for scan_only in [false, true] {
                                        let o = Opts { sample_limit: limit, scan_only, ..Opts::default() };
                                        let (got, peak) = peak_alloc(|| {
                                            // no output buffers: frames are not entered
                                            let mut sc = Script::new(&bw.bytes, 0);
                                            let mut p = Plan::new(&o);
                                            let skip = |_: usize| true;
                                            p.skip = &skip;
                                            let len = bw.bytes.len();
                                            run(&mut p, &mut sc, &[len / 2, len])
                                        });
                                        let all = samples(w as usize, h as usize, necs);
                                        let over = limit.is_some_and(|l| all >= l as u128 || samples(img.w as usize, img.h as usize, necs) >= l as u128);
                                        if over && !matches!(got.end, End::Error(_)) {
                                            return Err(format!("{necs} extra channels, gss {gss}, passes {passes}, inner {inner}, limit {limit:?}: {:?}", got.end));
                                        }
                                        // what is accepted may cost memory in proportion
                                        let accepted = if over { 0 } else { all.min(u64::MAX as u128 / 64) as u64 };
                                        if peak > 400_000 + 1000 * bw.bytes.len() as u64 + 100 * 255 * 120 + 16 * accepted {
                                            return Err(format!("{necs} extra channels, gss {gss}, passes {passes}, inner {inner}, limit {limit:?}, {} bytes delivered: {peak} bytes allocated", bw.bytes.len()));
                                        }
                                        d = hash(&(d, got.end.class(), got.info.is_some()));
                                        n += 1;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Ok(Obs::batch(d, n, n))
        });
    });
}
/// Files that claim lengths and counts which they do not contain.
fn inflated() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let small = Image::new(20, 15);
    let head = |img: &Image| {
        let mut bw = Bw::new();
        img.write(&mut bw);
        bw
    };
    let start = bx(b"JXL ", &[0x0d, 0x0a, 0x87, 0x0a]);
    for big in [1u64 << 16, 1 << 20, 1 << 24, 1 << 31, 1 << 40, 1 << 62, u64::MAX - 40] {
        for ty in [b"jxlc", b"jxlp", b"Exif", b"brob", b"abcd", b"ftyp", b"jxll", b"jbrd"] {
            let mut f = start.clone();
            if ty != b"ftyp" {
                f.extend(ftyp(1));
            }
            let mut b = bx64(ty, &[]);
            b[8..16].copy_from_slice(&big.to_be_bytes());
            f.extend(b);
            match ty {
                b"jxlp" => f.extend([0, 0, 0, 7]),
                b"brob" => f.extend(b"Exif"),
                _ => {}
            }
            f.extend((0..100u8).map(|x| x.wrapping_mul(37)));
            v.push((format!("box/{}/{big}", String::from_utf8_lossy(ty)), f));
        }
    }
    // sections
    for n in [1u32 << 14, 1 << 22, (1 << 22) + 17408, (1 << 30) + 4_211_711] {
        for (w, h) in [(20u32, 15u32), (300, 15), (600, 600)] {
            let img = Image::new(w, h);
            let f = Frame { gss: 0, ..Frame::new(&img) };
            let mut bw = head(&img);
            bw.align();
            f.write(&mut bw, &img);
            bw.b(false);
            bw.align();
            for _ in 0..f.num_sections(&img) {
                bw.u32([B(10, 0), B(14, 1024), B(22, 17408), B(30, 4_211_712)], n);
            }
            bw.align();
            (0..200u64).for_each(|x| bw.u(8, x * 77 & 255));
            v.push((format!("section/{n}/{w}"), bw.bytes));
        }
    }
    // profiles: the length of the coded stream, then the length of the profile
    for n in [100u64, 5000, 1 << 16, 1 << 20, 1 << 24] {
        for out in [200u64, 1 << 16, 1 << 22, 1 << 28] {
            let mut bw = Bw::new();
            let mut stream: Vec<u8> = vec![];
            let mut x = out;
            while x >= 128 {
                stream.push(x as u8 | 128);
                x >>= 7;
            }
            stream.push(x as u8);
            stream.push(1);
            stream.resize(150, 0);
            let mut img = Image { icc_stream: Some(stream.clone()), ..small.clone() };
            img.color.icc = true;
            // written with its true length first, to find where the length is
            img.write(&mut bw);
            v.push((format!("icc/complete/{out}"), bw.bytes.clone()));
            let mut bw = Bw::new();
            claiming(n, || img.write(&mut bw));
            v.push((format!("icc/{n}/{out}"), bw.bytes));
        }
    }
    // extensions of image and frame headers
    for n in [1u64 << 10, 1 << 20, 1 << 33, 1 << 62, u64::MAX] {
        for frame in [false, true] {
            let e = vec![(0, vec![true; 300])];
            let img = Image { ext: if frame { vec![] } else { e.clone() }, ..small.clone() };
            let f = Frame { ext: if frame { e } else { vec![] }, ..Frame::new(&img) };
            let mut bw = Bw::new();
            claiming(n, || {
                img.write(&mut bw);
                add(&img, &[Fr::new(&img, f)], &mut bw, 0);
            });
            v.push((format!("extension/{frame}/{n}"), bw.bytes));
        }
    }
    // counts in the features and in the modular data, with symbols that take no bits
    for n in [1u32 << 8, 1 << 12, 1 << 16, 1 << 20, 1 << 24, (1 << 31) - 1] {
        for (w, h) in [(20u32, 15u32), (700, 600)] {
            for what in 0..7 {
                let img = Image::new(w, h);
                let mut f = Frame { gss: 3, flags: [2, 2, 16, 16, 0, 0, 0][what], ..Frame::new(&img) };
                f.save_as = 0;
                let mut bw = head(&img);
                if what < 2 {
                    let r = Frame { ty: 2, is_last: false, save_as: 1, before_ct: true, ..Frame::new(&img) };
                    add(&img, &[Fr::new(&img, r)], &mut bw, 0);
                }
                let mut s = Bw::new();
                match what {
                    // patches: many references, many positions
                    0 => one_value(&mut s, 10, &[Sym::Lit(0, n), Sym::Lit(1, 1), Sym::Lit(3, 0), Sym::Lit(3, 0), Sym::Lit(2, 0), Sym::Lit(2, 0), Sym::Lit(7, 0), Sym::Lit(4, 0), Sym::Lit(4, 0), Sym::Lit(5, 0)]),
                    1 => one_value(&mut s, 10, &[Sym::Lit(0, 1), Sym::Lit(1, 1), Sym::Lit(3, 0), Sym::Lit(3, 0), Sym::Lit(2, 0), Sym::Lit(2, 0), Sym::Lit(7, n), Sym::Lit(4, 0), Sym::Lit(4, 0), Sym::Lit(5, 0), Sym::Lit(6, 0)]),
                    // splines: many, many control points
                    2 => one_value(&mut s, 6, &[Sym::Lit(2, n), Sym::Lit(1, 0), Sym::Lit(0, 0), Sym::Lit(3, 0), Sym::Lit(4, 0), Sym::Lit(5, 0)]),
                    3 => one_value(&mut s, 6, &[Sym::Lit(2, 0), Sym::Lit(1, 0), Sym::Lit(0, 0), Sym::Lit(3, n), Sym::Lit(4, 0), Sym::Lit(5, 0)]),
                    _ => {}
                }
                s.b(true); // default quantisation of LF
                s.b(true); // tree
                match what {
                    // a tree that never ends (every node a split), in symbols without bits
                    4 => one_value(&mut s, 6, &[Sym::Lit(1, 1), Sym::Lit(0, n & 0xff), Sym::Lit(2, 0), Sym::Lit(3, 0), Sym::Lit(4, 0), Sym::Lit(5, 0)]),
                    _ => {
                        Tree::single(5).write(&mut s, Ent::auto(6));
                        one_value(&mut s, 1, &[Sym::Lit(0, 0)]);
                        // group header: a palette with many colours, or many transforms
                        s.b(true);
                        s.b(true);
                        if what == 5 {
                            s.u32([V(0), V(1), B(4, 2), B(8, 18)], 1);
                            s.u(2, 1);
                            s.u32([B(3, 0), B(6, 8), B(10, 72), B(13, 1096)], 0);
                            s.u32([V(1), V(3), V(4), B(13, 1)], 3);
                            s.u32([B(8, 0), B(10, 256), B(12, 1280), B(16, 5376)], n.min(70_911));
                            s.u32([V(0), B(8, 1), B(10, 257), B(16, 1281)], n.min(66_816));
                            s.u(4, 0);
                        } else if what == 6 {
                            let k = n.min(273);
                            s.u32([V(0), V(1), B(4, 2), B(8, 18)], k);
                            for _ in 0..k {
                                s.u(2, 2);
                                s.u32([V(0), B(4, 1), B(6, 9), B(8, 41)], 0);
                            }
                        } else {
                            s.u32([V(0), V(1), B(4, 2), B(8, 18)], 0);
                        }
                    }
                }
                s.align();
                let mut secs = vec![s.bytes];
                let ns = f.num_sections(&img);
                secs.resize(ns, vec![]);
                assemble(&img, &f, &secs, None, &mut bw);
                v.push((format!("count/{what}/{n}/{w}"), bw.bytes));
            }
        }
    }
    // histograms: the most clusters with the largest alphabets
    for lz in [false, true] {
        for log_alpha in [15u32, 8] {
            let mut bw = head(&small);
            let f = Frame::new(&small);
            let mut s = Bw::new();
            s.b(true);
            s.b(true);
            let mut e = Ent::auto(6);
            if lz {
                e = e.with_lz(224, 3);
            }
            if log_alpha == 8 {
                e = e.ans();
            }
            Tree::single(5).write(&mut s, e);
            s.align();
            assemble(&small, &f, &[s.bytes], None, &mut bw);
            v.push((format!("histograms/{lz}/{log_alpha}"), bw.bytes));
        }
    }
    v
}
/// Codes every context with one value that takes no bits, apart from the additional bits of large ones, which follow.
fn one_value(bw: &mut Bw, contexts: usize, vals: &[Sym]) {
    let mut lits: Vec<Sym> = (0..contexts).map(|c| Sym::Lit(c, 0)).collect();
    for s in vals {
        if let Sym::Lit(c, x) = s {
            lits[*c] = Sym::Lit(*c, *x);
        }
    }
    let mut e = Ent::auto(contexts);
    if contexts > 1 {
        e = e.with_map(CtxMap::Coded { map: (0..contexts as u8).collect(), mtf: false, ent: Box::new(Ent::auto(1)), copies: false });
    }
    e.prepare(&[&lits]);
    e.write_header(bw);
    let big: Vec<Sym> = lits.into_iter().filter(|s| matches!(s, Sym::Lit(_, x) if *x >= 16)).collect();
    e.write_tokens(bw, &big);
}
/// Allowed: a constant, a multiple of the delivered bytes, and per pixel of the picture and of the frames kept.
const CONST: u64 = 24 << 20;
const PER_BYTE: u64 = 2048;
const PER_PIXEL: u64 = 768;
fn memory(ctx: &Ctx) {
    let fs = inflated();
    ctx.note(format!("{} files with inflated claims", fs.len()));
    ctx.par(fs.len(), |i| {
        let (name, data) = &fs[i];
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("memory/{name}"), || {
            let (mut d, mut n) = (0, 0);
            for limit in [None, Some(40_000_000)] {
                for (skip, scan) in [(false, false), (true, false), (false, true)] {
                    for step in [data.len(), 1, 17] {
                        if ctx.quick() && step == 1 && data.len() > 600 {
                            continue;
                        }
                        let cuts: Vec<usize> = (1..=data.len() / step).map(|k| k * step).chain([data.len()]).collect();
                        let o = Opts { sample_limit: limit, scan_only: scan, ..Opts::default() };
                        let mut s = Script::new(data, 0);
                        let f = |_: usize| skip;
                        let mut p = Plan::new(&o);
                        p.skip = &f;
                        let (out, peak) = peak_alloc(|| run(&mut p, &mut s, &cuts));
                        let max = CONST + PER_BYTE * data.len() as u64 + PER_PIXEL * if name.ends_with("/700") || name.ends_with("/600") { 420_000 } else { 4500 };
                        if peak > max {
                            return Err(format!("{} bytes delivered in steps of {step} (skip {skip}, scan {scan}): {peak} bytes allocated, {max} allowed; ends with {:?}", data.len(), out.end));
                        }
                        d = hash(&(d, out.end.class(), out.info.is_some()));
                        n += 1;
                    }
                }
            }
            Ok(Obs::batch(d, n, n))
        });
    });
}
pub fn c22(ctx: &Ctx) {
    ctx.set_rule("state space: every place where a file states a size (image, preview, frames of all types, levels and upsampling factors, extra channels) x limits just below, at and above each number of samples x scan, preview and delivery modes; all magnitudes of claimed dimensions, with section tables missing, empty or huge; claimed lengths and counts (boxes, sections, profiles, patches, splines, trees, palettes, transforms) at all magnitudes, delivered at once and byte by byte with the peak of allocated memory measured; non-vacuous: limits are crossed by every item");
    ctx.assume("rows count for at least 16 samples per channel; allocations are counted in the decoding thread");
    limits(ctx);
    claims(ctx);
    memory(ctx);
}
