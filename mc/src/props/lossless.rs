//! C16: lossless images decode to exactly the integers that were coded.
use crate::dec::*;
use crate::enc::frame::*;
use crate::enc::head::*;
use crate::enc::modular::*;
use crate::engine::*;
use jxl::api::*;

/// Compares the float output with integer channels (full resolution ones only).
pub fn check_f32(out: &Outcome, frame: usize, chans: &[Chan], depth: &[u32]) -> Result<(), String> {
    if out.end != End::Done {
        return Err(format!("does not decode: {:?}", out.end));
    }
    let f = out.frames.get(frame).ok_or("frame missing")?;
    let nc = chans.len() + 1 - f.bufs.len();
    let data: Vec<Vec<f32>> = (0..f.bufs.len()).map(|i| f.f32s(i)).collect();
    for (k, c) in chans.iter().enumerate() {
        if (c.w, c.h) != f.size {
            continue;
        }
        let max = ((1u64 << depth[k]) - 1) as f64;
        for y in 0..c.h {
            for x in 0..c.w {
                let v = if k < nc { data[0][(y * c.w + x) * nc + k] } else { data[k - nc + 1][y * c.w + x] };
                let got = v as f64 * max;
                let want = c.at(x, y) as f64;
                if !((got - want).abs() <= 0.25 + want.abs() * 3.0 / 8388608.0) {
                    return Err(format!("channel {k} sample ({x},{y}) is {got}, coded {want}"));
                }
            }
        }
    }
    Ok(())
}
/// Compares the integer output (8 or 16 bits) for samples that are in range.
pub fn check_int(out: &Outcome, chans: &[Chan], bits: u32) -> Result<(), String> {
    if out.end != End::Done {
        return Err(format!("does not decode: {:?}", out.end));
    }
    let f = out.frames.first().ok_or("frame missing")?;
    let nc = chans.len() + 1 - f.bufs.len();
    for (k, c) in chans.iter().enumerate() {
        if (c.w, c.h) != f.size {
            continue;
        }
        for i in 0..c.data.len() {
            let (b, p) = if k < nc { (&f.bufs[0], i * nc + k) } else { (&f.bufs[k - nc + 1], i) };
            let got = if bits <= 8 { b[p] as i32 } else { u16::from_ne_bytes([b[2 * p], b[2 * p + 1]]) as i32 };
            let want = c.data[i].clamp(0, (1 << bits) - 1);
            if got != want {
                return Err(format!("{bits}-bit output: channel {k} sample ({},{}) is {got}, coded {want}", i % c.w, i / c.w));
            }
        }
    }
    Ok(())
}
pub fn int_format(nc: usize, necs: usize, bits: u32) -> JxlPixelFormat {
    let f = if bits <= 8 {
        JxlDataFormat::U8 { bit_depth: bits as u8 }
    } else {
        JxlDataFormat::U16 { endianness: if cfg!(target_endian = "little") { Endianness::LittleEndian } else { Endianness::BigEndian }, bit_depth: bits as u8 }
    };
    JxlPixelFormat {
        color_type: if nc == 1 { JxlColorType::Grayscale } else { JxlColorType::Rgb },
        color_data_format: Some(f),
        extra_channel_format: vec![Some(f); necs],
    }
}
/// Everything one lossless file needs.
#[derive(Clone)]
pub struct Job {
    pub img: Image,
    pub f: Frame,
    pub o: ModOpts,
}
impl Job {
    pub fn new(img: Image, tree: Tree) -> Job {
        let f = Frame::new(&img);
        let o = ModOpts::new(tree, img.depth.bits);
        Job { img, f, o }
    }
    pub fn depths(&self) -> Vec<u32> {
        let mut v = vec![self.img.depth.bits; self.img.colors()];
        v.extend(self.img.ecs.iter().map(|e| e.depth.bits));
        v
    }
    /// Whether the transforms can be applied to the image's channels, here and in every group.
    pub fn applies(&self) -> bool {
        let mut all = Chans { c: channels(&self.img, &self.f), meta: 0 };
        if all.forward(&self.o.trs).is_none() {
            return false;
        }
        self.o.group_trs.is_empty()
            || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                self.encode(&mut |_, _, _, _| 0);
            }))
            .is_ok()
    }
    pub fn encode(&self, t: &mut dyn FnMut(u32, usize, usize, usize) -> i32) -> (Vec<u8>, Vec<Chan>) {
        simple(&self.img, &self.f, &self.o, t)
    }
    pub fn run(&self, t: &mut dyn FnMut(u32, usize, usize, usize) -> i32) -> CaseResult {
        let (data, chans) = self.encode(t);
        self.check(&data, &chans)
    }
    pub fn check(&self, data: &[u8], chans: &[Chan]) -> CaseResult {
        let opts = Opts { adjust_orientation: false, ..Opts::default() };
        let a = oneshot(data, &opts, FmtSel::F32All);
        check_f32(&a, 0, chans, &self.depths())?;
        let mut d = a.digest();
        let mut n = 1;
        let b = self.img.depth.bits;
        // integer outputs, at the file's depth
        if b <= 16 && !self.img.depth.float && self.depths().iter().all(|x| *x == b) {
            for ob in if b == 8 { vec![8] } else if b < 8 { vec![b, 8] } else { vec![b, 16] } {
                if ob != b {
                    continue;
                }
                let i = oneshot(data, &opts, FmtSel::Explicit(int_format(self.img.colors(), self.img.ecs.len(), ob)));
                check_int(&i, chans, ob)?;
                d ^= i.digest().rotate_left(7);
                n += 1;
            }
        }
        Ok(Obs::batch(d, a.steps, n))
    }
}
pub fn hash3(a: u32, b: u32, c: u32) -> u32 {
    let mut h = a.wrapping_mul(0x9E37_79B1) ^ b.wrapping_mul(0x85EB_CA77) ^ c.wrapping_mul(0xC2B2_AE3D);
    h ^= h >> 15;
    h = h.wrapping_mul(0x2C1B_3C6D);
    h ^= h >> 12;
    h = h.wrapping_mul(0x297A_2D39);
    h ^ h >> 15
}
/// Deterministic sample patterns (`k`: number of patterns is PATTERNS).
pub const PATTERNS: usize = 8;
pub fn pattern(k: usize, max: i32, c: usize, x: usize, y: usize) -> i32 {
    let h = hash3(x as u32 + 1, y as u32 * 7 + 3, c as u32 * 31 + k as u32);
    let m = max as i64 + 1;
    (match k {
        0 => h as i64 % m,
        1 => (x as i64 * 5 + y as i64 * 3 + c as i64 * 11) % m,
        2 => if (x + y + c) & 1 == 0 { 0 } else { max as i64 },
        3 => (((x * x + y * y * 2) as i64) + (h % 3) as i64) % m,
        4 => if h % 5 == 0 { max as i64 } else { (h % 4) as i64 % m },
        5 => max as i64 / 2,
        6 => max as i64 - (x as i64 + 2 * y as i64 + (h & 1) as i64) % m,
        _ => h as i64 % (2 * m) - m / 2,
    }) as i32
}
fn img(nc: usize, w: usize, h: usize, bits: u32) -> Image {
    let mut i = if nc == 1 { Image::gray(w as u32, h as u32) } else { Image::new(w as u32, h as u32) };
    i.depth = Depth::int(bits);
    i
}
fn with_ecs(mut i: Image, n: usize) -> Image {
    for _ in 0..n {
        i.ecs.push(Ec { depth: i.depth.clone(), ..Ec::of(if n == 1 { 0 } else { 16 }) });
    }
    i
}
/// All full binary trees with at most `d` levels of splits over `props` and leaf predictors taken from `preds` in order.
pub fn c16(ctx: &Ctx) {
    ctx.set_rule("files built by an independent model of the modular encoder: every sample of every explored image must decode to the coded integer");
    let q = ctx.quick();
    // 1. all binary images of small sizes, every predictor
    let sizes: Vec<(usize, usize)> = if q { vec![(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (5, 2), (2, 4)] } else { vec![(1, 1), (1, 2), (2, 2), (3, 3), (3, 4), (4, 3), (5, 2), (2, 5), (6, 2)] };
    let mut jobs = vec![];
    for &(w, h) in &sizes {
        for p in 0..14u32 {
            let n = 1u32 << (w * h);
            for lo in (0..n).step_by(64) {
                jobs.push((w, h, p, lo, (lo + 64).min(n)));
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (w, h, p, lo, hi) = jobs[j];
        ctx.case(&format!("bin/{w}x{h}/pred{p}/{lo}"), || {
            let mut d = 0;
            for v in lo..hi {
                let job = Job::new(img(1, w, h, 8), Tree::single(p));
                let (data, ch) = job.encode(&mut |_, _, x, y| if v >> (y * w + x) & 1 == 1 { 200 } else { 3 });
                d ^= job.check(&data, &ch).map_err(|e| format!("image {v:#x}: {e}"))?.digest;
            }
            Ok(Obs::batch(d, (hi - lo) as u64, 2 * (hi - lo) as u64))
        });
    });
    // 2. three-level images: every predictor pair under every property split
    let props: Vec<u32> = (0..24).collect();
    let mut jobs = vec![];
    for &p in &props {
        for a in 0..14u32 {
            for t in ctx.pick(vec![-1, 0, 2], vec![-300, -20, -1, 0, 1, 2, 5, 100, 1000]) {
                jobs.push((p, a, t));
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (p, a, t) = jobs[j];
        for b in 0..14u32 {
            ctx.case(&format!("prop/{p}/{t}/pred{a},{b}"), || {
                let mut d = 0;
                let mut n = 0;
                for (w, h, k) in [(7, 5, 0), (9, 6, 6), (3, 9, 4)] {
                    let mut job = Job::new(with_ecs(img(1, w, h, 8), 1), Tree(vec![Node::Split(p, t), leaf(a), leaf(b)]));
                    job.o.split_ctx = true;
                    job.o.ans = (a + b) % 2 == 1;
                    let o = job.run(&mut |_, c, x, y| pattern(k, 255, c, x, y)).map_err(|e| format!("{w}x{h} pattern {k}: {e}"))?;
                    d ^= o.digest;
                    n += o.evals;
                }
                Ok(Obs::batch(d, n, n))
            });
        }
    });
    let ints = |job: &Job, ks: &[usize], max: i32| -> CaseResult {
        let (mut d, mut n) = (0u64, 0);
        for &k in ks {
            let o = job.run(&mut |_, c, x, y| pattern(k, max, c, x, y)).map_err(|e| format!("pattern {k}: {e}"))?;
            d = d.rotate_left(5) ^ o.digest;
            n += o.evals;
        }
        Ok(Obs::batch(d, n, n))
    };
    // 3. tree shapes: every full tree with up to 3 splits over a property alphabet
    {
        let alphabet: Vec<u32> = ctx.pick(vec![0, 3, 9, 15], vec![0, 1, 2, 3, 5, 8, 9, 11, 15, 16, 18]);
        let mut trees: Vec<Vec<Node>> = vec![];
        // shapes in breadth-first order with up to three splits
        let shapes: Vec<Vec<bool>> = vec![
            vec![true, true, false, false, false],
            vec![true, false, true, false, false],
            vec![true, true, true, false, false, false, false],
            vec![true, true, false, false, true, false, false],
            vec![true, true, false, true, false, false, false],
            vec![true, false, true, true, false, false, false],
            vec![true, false, true, false, true, false, false],
        ];
        for sh in &shapes {
            let k = sh.iter().filter(|b| **b).count();
            let n = alphabet.len().pow(k as u32);
            for mut v in 0..n {
                let mut l = 0;
                let mut t = vec![];
                for b in sh {
                    if *b {
                        let p = alphabet[v % alphabet.len()];
                        v /= alphabet.len();
                        t.push(Node::Split(p, [1, 0, 4, 20][t.len() % 4]));
                    } else {
                        t.push(Node::Leaf { pred: [5, 6, 1, 4, 13, 3][(l + v) % 6], offset: l as i32 - 1, mul_log: 0, mul_bits: 0 });
                        l += 1;
                    }
                }
                if Tree(t.clone()).valid() {
                    trees.push(t);
                }
            }
        }
        ctx.par(trees.len(), |i| {
            ctx.case(&format!("tree/{i}"), || {
                // large enough for the specialised decoding paths
                let mut job = Job::new(img(1, 23, 11, 8), Tree(trees[i].clone()));
                job.o.split_ctx = i % 2 == 0;
                ints(&job, &[i % 3, 6], 255)
            });
        });
    }
    // 4. shapes that select specialised paths: single leaf per predictor, channel-only trees, gradient-only, WP-only
    {
        let mut jobs = vec![];
        for (w, h) in ctx.pick(vec![(1, 70), (70, 1), (3, 40), (5, 40), (40, 3), (64, 5), (65, 17), (200, 3)], vec![(1, 70), (70, 1), (2, 40), (3, 40), (4, 33), (5, 40), (40, 2), (40, 3), (64, 5), (65, 17), (200, 3), (255, 2), (256, 9), (9, 256)]) {
            for kind in 0..9 {
                for p in 0..14u32 {
                    for (ans, copies) in [(false, None), (true, None), (false, Some(3)), (true, Some(4))] {
                        jobs.push((w, h, kind, p, ans, copies));
                    }
                }
            }
        }
        ctx.par(jobs.len(), |i| {
            let (w, h, kind, p, ans, copies) = jobs[i];
            ctx.case(&format!("path/{w}x{h}/k{kind}/pred{p}/ans{ans}/lz{}", copies.unwrap_or(0)), || {
                let tree = match kind {
                    0 => vec![leaf(p)],
                    1 => vec![Node::Leaf { pred: p, offset: 3, mul_log: 0, mul_bits: 0 }],
                    2 => vec![Node::Leaf { pred: p, offset: 0, mul_log: 1, mul_bits: 0 }],
                    3 => vec![Node::Leaf { pred: p, offset: -7, mul_log: 0, mul_bits: 2 }],
                    // by channel
                    4 => vec![Node::Split(0, 0), leaf(p), leaf(5)],
                    5 => vec![Node::Split(0, 1), leaf(5), Node::Split(0, 0), leaf(p), leaf(5)],
                    // by stream
                    6 => vec![Node::Split(1, 0), leaf(4), leaf(p)],
                    // weighted error only
                    7 => vec![Node::Split(15, 8), leaf(p), Node::Split(15, -8), leaf(6), leaf(p)],
                    // gradient property only
                    _ => vec![Node::Split(9, 100), leaf(p), Node::Split(9, 30), leaf(5), leaf(p)],
                };
                let nc = if kind == 5 || kind == 0 { 3 } else { 1 };
                let mut job = Job::new(if kind == 4 { with_ecs(img(1, w, h, 8), 1) } else { img(nc, w, h, 8) }, Tree(tree));
                job.o.ans = ans;
                job.o.copies = copies;
                job.o.split_ctx = p % 2 == 0;
                ints(&job, &[3, 5, 4], 255)
            });
        });
    }
    // 5. weighted-predictor settings
    {
        let mut jobs = vec![];
        for i in 0..11 {
            for v in ctx.pick(vec![0, 1, 15, 31], (0..32).collect::<Vec<i64>>()) {
                jobs.push((i, v));
            }
        }
        ctx.par(jobs.len(), |j| {
            let (i, v) = jobs[j];
            ctx.case(&format!("wp/{i}={v}"), || {
                let mut job = Job::new(img(1, 13, 9, 10), Tree(vec![Node::Split(15, 0), leaf(6), leaf(6)]));
                if i < 7 {
                    job.o.wp.p[i] = v;
                } else {
                    job.o.wp.w[i - 7] = (v & 15) as u32;
                }
                ints(&job, &[0, 3, 4, 6], 1023)
            });
        });
    }
    // 6. colour transforms: all 42 at every position
    {
        let mut jobs = vec![];
        for t in 0..42u32 {
            for b in 0..4usize {
                for second in ctx.pick(vec![None, Some(5), Some(34)], (0..43).map(|x| if x == 42 { None } else { Some(x) }).collect()) {
                    jobs.push((t, b, second));
                }
            }
        }
        ctx.par(jobs.len(), |j| {
            let (t, b, second) = jobs[j];
            ctx.case(&format!("rct/{t}@{b}/then{second:?}"), || {
                let mut job = Job::new(with_ecs(img(3, 7, 5, 8), 3), Tree::single(5));
                job.o.trs.push(Tr::Rct(b, t));
                if let Some(u) = second {
                    job.o.trs.push(Tr::Rct((b + 1) % 4, u));
                }
                ints(&job, &[0, 7], 255)
            });
        });
    }
    // 7. palettes
    {
        let mut jobs = vec![];
        for num in 1..=4usize {
            for begin in 0..=1usize {
                for colors in [0usize, 1, 2, 7] {
                    for deltas in [0usize, 1, 3] {
                        for pred in 0..14u32 {
                            for bits in ctx.pick(vec![8], vec![1, 4, 8, 10, 16]) {
                                if colors + deltas > 0 || num <= 3 {
                                    jobs.push((num, begin, colors, deltas, pred, bits));
                                }
                            }
                        }
                    }
                }
            }
        }
        // other depths, a few predictors
        for bits in [1, 2, 5, 10, 12, 16, 20] {
            for num in [1, 3, 4] {
                for pred in [0, 5, 6] {
                    jobs.push((num, 0, 3, 1, pred, bits));
                }
            }
        }
        ctx.par(jobs.len(), |j| {
            let (num, begin, colors, deltas, pred, bits) = jobs[j];
            ctx.case(&format!("palette/n{num}/b{begin}/c{colors}+{deltas}/pred{pred}/bits{bits}"), || {
                let mut job = Job::new(with_ecs(img(3, 9, 7, bits), 2), Tree::single(1));
                job.o.trs.push(Tr::Palette { begin, num, colors, deltas, pred });
                let size = (colors + deltas) as i32;
                let (mut d, mut n) = (0, 0);
                for k in 0..4 {
                    let o = job
                        .run(&mut |_, c, x, y| {
                            let h = hash3(x as u32 + 5 * k, y as u32, c as u32 + 17);
                            match c {
                                // the palette itself
                                0 => (h % 200) as i32 * ((1i64 << bits) as i32).min(1 << 16) / 200 - if deltas > x { 9 } else { 0 },
                                _ if c == begin + 1 => match k {
                                    0 => (h as i32 & 0xffff) % size.max(1),
                                    // implicit deltas
                                    1 => -((h % 150) as i32) - 1 + if h & 0x10000 != 0 { 160 } else { 0 },
                                    // small cube, then large cube
                                    2 => size + (h % 70) as i32,
                                    _ => (h % (size as u32 + 64 + 125)) as i32 - 3,
                                },
                                _ => (h % (1 << bits.min(16))) as i32,
                            }
                        })
                        .map_err(|e| format!("indices {k}: {e}"))?;
                    d ^= o.digest.rotate_left(k);
                    n += o.evals;
                }
                Ok(Obs::batch(d, n, n))
            });
        });
    }
    // 8. squeeze: default on all sizes; every short list of explicit steps
    {
        let m = ctx.pick(20usize, 40);
        ctx.par(m * m, |i| {
            let (w, h) = (i % m + 1, i / m + 1);
            for nc in [1, 3] {
                ctx.case(&format!("squeeze/default/{w}x{h}/{nc}"), || {
                    let mut job = Job::new(with_ecs(img(nc, w, h, 8), 1), Tree::single(if nc == 1 { 0 } else { 5 }));
                    job.o.trs.push(Tr::Squeeze(vec![]));
                    ints(&job, ctx.pick(&[0, 7][..], &[0, 1, 2, 4, 7][..]), 255)
                });
            }
        });
        let mut steps = vec![];
        for horizontal in [false, true] {
            for in_place in [false, true] {
                for begin in 0..3 {
                    for num in 1..=3 - begin {
                        steps.push(Sq { horizontal, in_place, begin, num });
                    }
                }
            }
        }
        let n = steps.len();
        let len = ctx.pick(2, 3);
        let total: usize = (1..=len).map(|l| n.pow(l as u32)).sum();
        ctx.par(total, |mut i| {
            let mut l = 1;
            while i >= n.pow(l) {
                i -= n.pow(l);
                l += 1;
            }
            let mut v = vec![];
            let mut r = i;
            for _ in 0..l {
                v.push(steps[r % n].clone());
                r /= n;
            }
            ctx.case(&format!("squeeze/list{l}/{i}"), || {
                let mut d = 0;
                let mut e = 0;
                for (w, h) in [(5, 6), (1, 3), (4, 1)] {
                    let mut job = Job::new(img(3, w, h, 8), Tree::single(0));
                    job.o.trs.push(Tr::Squeeze(v.clone()));
                    let o = ints(&job, &[7], 255).map_err(|e| format!("{w}x{h} {v:?}: {e}"))?;
                    d ^= o.digest;
                    e += o.evals;
                }
                Ok(Obs::batch(d, e, e))
            });
        });
    }
    // 9. chains of transforms
    {
        let t = |k: usize| -> Tr {
            match k {
                0 => Tr::Rct(0, 6),
                1 => Tr::Rct(1, 10),
                2 => Tr::Palette { begin: 0, num: 3, colors: 5, deltas: 0, pred: 0 },
                3 => Tr::Palette { begin: 0, num: 1, colors: 4, deltas: 1, pred: 5 },
                4 => Tr::Palette { begin: 1, num: 2, colors: 3, deltas: 0, pred: 0 },
                5 => Tr::Squeeze(vec![]),
                6 => Tr::Squeeze(vec![Sq { horizontal: true, in_place: true, begin: 0, num: 2 }]),
                7 => Tr::Squeeze(vec![Sq { horizontal: false, in_place: false, begin: 1, num: 1 }]),
                _ => Tr::Palette { begin: 2, num: 1, colors: 2, deltas: 2, pred: 6 },
            }
        };
        let len = ctx.pick(3u32, 4);
        let total: usize = (2..=len).map(|l| 9usize.pow(l)).sum();
        ctx.par(total, |mut i| {
            let mut l = 2;
            while i >= 9usize.pow(l) {
                i -= 9usize.pow(l);
                l += 1;
            }
            let mut r = i;
            let trs: Vec<Tr> = (0..l).map(|_| { let k = r % 9; r /= 9; t(k) }).collect();
            let mut job = Job::new(with_ecs(img(3, 11, 6, 8), 1), Tree::single(1));
            job.o.trs = trs;
            if !job.applies() {
                return;
            }
            ctx.case(&format!("chain/{l}/{i}"), || ints(&job, &[0, 3], 9).map_err(|e| format!("{:?}: {e}", job.o.trs)));
        });
    }
    // 10. depths
    {
        let mut jobs = vec![];
        for bits in 1..=24u32 {
            for tr in 0..4 {
                jobs.push((bits, tr));
            }
        }
        ctx.par(jobs.len(), |j| {
            let (bits, tr) = jobs[j];
            for nc in [1usize, 3] {
                ctx.case(&format!("depth/{bits}/{tr}/{nc}"), || {
                    let mut job = Job::new(with_ecs(img(nc, 9, 8, bits), 1), Tree::single(6));
                    job.img.m16 = bits < 14;
                    match tr {
                        1 if nc == 3 => job.o.trs.push(Tr::Rct(0, 6)),
                        2 => job.o.trs.push(Tr::Squeeze(vec![])),
                        3 => job.o.trs.push(Tr::Palette { begin: 0, num: nc, colors: 9, deltas: 0, pred: 0 }),
                        _ => {}
                    }
                    ints(&job, if tr == 3 { &[5] } else { &[0, 2, 6] }, ((1i64 << bits) - 1) as i32)
                });
            }
        });
    }
    // 11. division into groups, LF groups and passes
    {
        let mut jobs = vec![];
        let sizes = ctx.pick(
            vec![(127, 128, 0), (128, 129, 0), (129, 128, 0), (130, 257, 0), (257, 256, 1), (300, 20, 0), (1025, 9, 0), (9, 1100, 0), (512, 513, 2)],
            vec![(127, 128, 0), (128, 129, 0), (129, 128, 0), (130, 257, 0), (257, 256, 1), (300, 20, 0), (1025, 9, 0), (9, 1100, 0), (512, 513, 2), (1025, 1024, 3), (1030, 260, 0), (2049, 17, 1), (385, 385, 0)],
        );
        for &(w, h, gss) in &sizes {
            for tr in 0..10 {
                for passes in 0..4 {
                    for gtree in [false, true] {
                        jobs.push((w, h, gss, tr, passes, gtree));
                    }
                }
            }
        }
        ctx.par(jobs.len(), |j| {
            let (w, h, gss, tr, passes, gtree) = jobs[j];
            ctx.case(&format!("groups/{w}x{h}/g{gss}/t{tr}/p{passes}/local{gtree}"), || {
                let mut job = Job::new(with_ecs(img(3, w, h, 8), 1), Tree(vec![Node::Split(1, 3), leaf(5), leaf(1)]));
                job.f.gss = gss;
                job.f.passes = match passes {
                    0 => Passes { num: 1, shift: vec![], ds: vec![] },
                    1 => Passes { num: 2, shift: vec![0], ds: vec![(4, 0)] },
                    2 => Passes { num: 3, shift: vec![0, 0], ds: vec![(8, 0), (2, 1)] },
                    _ => Passes { num: 2, shift: vec![0], ds: vec![] },
                };
                if gtree {
                    job.o.group_tree = Some(Tree(vec![Node::Split(3, 50), leaf(2), leaf(6)]));
                }
                job.o.copies = if tr % 2 == 0 { Some(3) } else { None };
                match tr {
                    0 => {}
                    1 => job.o.trs.push(Tr::Rct(0, 6)),
                    2 => job.o.trs.push(Tr::Squeeze(vec![])),
                    3 => job.o.trs.push(Tr::Palette { begin: 0, num: 3, colors: 12, deltas: 0, pred: 0 }),
                    4 => job.o.trs.push(Tr::Palette { begin: 0, num: 3, colors: 9, deltas: 3, pred: 5 }),
                    5 => job.o.group_trs.push(Tr::Rct(0, 13)),
                    6 => job.o.group_trs.push(Tr::Palette { begin: 0, num: 1, colors: 6, deltas: 1, pred: 6 }),
                    7 => {
                        job.o.trs.push(Tr::Rct(0, 3));
                        job.o.trs.push(Tr::Squeeze(vec![]));
                    }
                    8 => {
                        job.o.trs.push(Tr::Squeeze(vec![]));
                        job.o.group_wp = Wp { p: [3, 1, 4, 1, 5, 9, 2], w: [1, 2, 3, 4] };
                    }
                    _ => {
                        job.o.trs.push(Tr::Rct(1, 10));
                        job.o.group_trs.push(Tr::Rct(0, 5));
                    }
                }
                if !job.o.group_trs.is_empty() && !job.applies() {
                    return Ok(Obs::batch(0, 0, 0));
                }
                let max = if matches!(tr, 3 | 4 | 6) { 11 } else { 255 };
                ints(&job, &[3], max)
            });
        });
    }
}
