//! C18: compressed colour profiles. The command language is enumerated; what a compressed profile stands for is computed
//! by a plain interpreter written from the format's definition.
use crate::dec::*;
use crate::enc::ent::*;
use crate::enc::frame::simple;
use crate::enc::head::*;
use crate::enc::modular::{ModOpts, Tree};
use crate::enc::Bw;
use crate::engine::*;
use jxl::api::*;
use jxl::bit_reader::BitReader;
use jxl::icc::IncrementalIccReader;

// ---------------------------------------------------------------- the reference
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Is(Vec<u8>),
    Refused,
    /// Refused, or this.
    Perhaps(Vec<u8>),
}
struct In<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> In<'a> {
    fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > (self.b.len() - self.at) as u64 {
            return None;
        }
        let s = &self.b[self.at..self.at + n as usize];
        self.at += n as usize;
        Some(s)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|s| s[0])
    }
    fn varint(&mut self) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..9 {
            let b = self.u8()?;
            v |= ((b & 127) as u64) << (7 * i);
            if b < 128 {
                break;
            }
        }
        Some(v)
    }
    fn end(&self) -> bool {
        self.at == self.b.len()
    }
}
const TAGS: [&[u8; 4]; 17] = [
    b"cprt", b"wtpt", b"bkpt", b"rXYZ", b"gXYZ", b"bXYZ", b"kXYZ", b"rTRC", b"gTRC", b"bTRC", b"kTRC", b"chad", b"desc",
    b"chrm", b"dmnd", b"dmdd", b"lumi",
];
const TYPES: [&[u8; 4]; 8] = [b"XYZ ", b"desc", b"text", b"mluc", b"para", b"curv", b"sf32", b"gbd "];

/// The rows of the data become the columns of a matrix of width `w`, whose last row is the one that may be short.
fn unshuffle(d: &[u8], w: usize) -> Vec<u8> {
    let n = d.len();
    let mut out = vec![0; n];
    let mut i = 0;
    for column in 0..w.min(n) {
        for at in (column..n).step_by(w) {
            out[at] = d[i];
            i += 1;
        }
    }
    out
}
fn header_guess(i: usize, size: u32, done: &[u8]) -> u8 {
    match i {
        0..=3 => (size >> (24 - 8 * i)) as u8,
        8 => 4,
        12..=15 => b"mntr"[i - 12],
        16..=19 => b"RGB "[i - 16],
        20..=23 => b"XYZ "[i - 20],
        36..=39 => b"acsp"[i - 36],
        41..=43 => {
            let guess: &[u8; 4] = match (done[40], done.get(41)) {
                (b'A', _) => b"APPL",
                (b'M', _) => b"MSFT",
                (b'S', Some(b'G')) if i > 41 => b"SGI ",
                (b'S', Some(b'U')) if i > 41 => b"SUNW",
                _ => &[0; 4],
            };
            guess[i - 40]
        }
        70 => 0xf6,
        71 => 0xd6,
        73 => 1,
        78 => 0xd3,
        79 => 0x2d,
        80..=83 => done[i - 76],
        _ => 0,
    }
}
fn xyz_tag(t: &[u8]) -> bool {
    [b"rXYZ", b"gXYZ", b"bXYZ", b"kXYZ", b"wtpt", b"bkpt", b"lumi"].iter().any(|x| *x == t)
}
fn reference(s: &[u8]) -> Want {
    let mut odd = false;
    match expand(s, None, &mut odd) {
        None => Want::Refused,
        Some(v) if odd => Want::Perhaps(v),
        Some(v) => Want::Is(v),
    }
}
/// `size`: pretended output size, not checked at the end. `odd` is set for profiles whose tags lie outside.
fn expand(s: &[u8], size: Option<u64>, odd: &mut bool) -> Option<Vec<u8>> {
    let mut data = In { b: s, at: 0 };
    let osize = data.varint()?;
    let csize = data.varint()?;
    if osize > 1 << 28 || osize + 65536 < s.len() as u64 {
        return None;
    }
    let mut cmd = In { b: data.take(csize)?, at: 0 };
    let mut out: Vec<u8> = vec![];
    let finish = |cmd: &In, data: &In, out: Vec<u8>| {
        (cmd.end() && data.end() && (size.is_some() || out.len() as u64 == osize)).then_some(out)
    };
    for i in 0..osize.min(128) as usize {
        let g = header_guess(i, size.unwrap_or(osize) as u32, &out);
        out.push(data.u8()?.wrapping_add(g));
    }
    if osize <= 128 {
        return finish(&cmd, &data, out);
    }
    let n = cmd.varint()?;
    if n > 0 {
        let n = n - 1;
        if n > u32::MAX as u64 {
            return None;
        }
        *odd |= 132 + 12 * n > osize;
        out.extend((n as u32).to_be_bytes());
        let (mut start, mut len) = (128 + 12 * n, 0u64);
        while !cmd.end() {
            let c = cmd.u8()?;
            let tag: [u8; 4] = match c & 63 {
                0 => break,
                1 => data.take(4)?.try_into().unwrap(),
                2 => *b"rTRC",
                3 => *b"rXYZ",
                t => **TAGS.get(t as usize - 4)?,
            };
            start += len;
            if xyz_tag(&tag) {
                len = 20;
            }
            if c & 64 != 0 {
                start = cmd.varint()?;
            }
            if c & 128 != 0 {
                len = cmd.varint()?;
            }
            let count = if c & 63 == 3 { 3 } else { 1 };
            if start.max(len) > u32::MAX as u64 || start + count * len > u32::MAX as u64 {
                return None;
            }
            *odd |= start + len > osize;
            let names: &[&[u8; 4]] = match c & 63 {
                2 => &[b"rTRC", b"gTRC", b"bTRC"],
                3 => &[b"rXYZ", b"gXYZ", b"bXYZ"],
                _ => &[&tag],
            };
            for (i, t) in names.iter().enumerate() {
                out.extend(*t);
                out.extend(((start + if c & 63 == 3 { i as u64 * len } else { 0 }) as u32).to_be_bytes());
                out.extend((len as u32).to_be_bytes());
            }
        }
    }
    while !cmd.end() {
        match cmd.u8()? {
            1 => {
                let n = cmd.varint()?;
                out.extend(data.take(n)?);
            }
            c @ 2..=3 => {
                let n = cmd.varint()?;
                out.extend(unshuffle(data.take(n)?, if c == 2 { 2 } else { 4 }));
            }
            4 => {
                let f = cmd.u8()?;
                let (w, order) = ((f & 3) as usize + 1, f >> 2 & 3);
                let stride = if f & 16 != 0 { cmd.varint()? } else { w as u64 };
                if w == 3 || order == 3 || stride < w as u64 || stride.saturating_mul(4) >= out.len() as u64 {
                    return None;
                }
                let n = cmd.varint()?;
                let d = unshuffle(data.take(n)?, w);
                let base = out.len();
                for (i, x) in d.iter().enumerate() {
                    // whole numbers of w bytes, most significant first
                    let at = base + i / w * w;
                    let p = |k: usize| {
                        let a = at - k * stride as usize;
                        out[a..a + w].iter().fold(0i64, |v, b| v << 8 | *b as i64)
                    };
                    let g = match order {
                        0 => p(1),
                        1 => 2 * p(1) - p(2),
                        _ => 3 * (p(1) - p(2)) + p(3),
                    };
                    let g = (g >> (8 * (w - 1 - i % w))) as u8;
                    out.push(x.wrapping_add(g));
                }
            }
            10 => {
                out.extend(b"XYZ \0\0\0\0");
                out.extend(data.take(12)?);
            }
            c @ 16..=23 => {
                out.extend(TYPES[c as usize - 16]);
                out.extend([0; 4]);
            }
            _ => return None,
        }
    }
    finish(&cmd, &data, out)
}

// ---------------------------------------------------------------- the code
fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v > 127 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
fn code(s: &[u8], e: Ent, bw: &mut Bw) {
    bw.u64(s.len() as u64);
    let syms: Vec<Sym> = (0..s.len()).map(|i| Sym::Lit(icc_ctx(s, i), s[i] as u32)).collect();
    e.write_all(bw, &syms);
}
/// What the decoder makes of a compressed profile coded with `e`.
fn decoded(s: &[u8], e: Ent) -> Option<Vec<u8>> {
    let mut bw = Bw::new();
    code(s, e, &mut bw);
    bw.u(64, 0);
    let mut br = BitReader::new(&bw.bytes);
    let mut r = IncrementalIccReader::new(&mut br).expect("jxlmc-harness: histograms");
    assert!(r.num_coded_bytes() == s.len() && r.remaining() == s.len());
    r.read_all(&mut br).expect("jxlmc-harness: symbols");
    r.finalize(&mut br).ok()
}
fn quick_code() -> Ent {
    // eight bits for every byte
    Ent::auto(41).with_uint(Uint { split: 8, msb: 0, lsb: 0 }).with_codes(vec![Code::Lens(vec![8; 256], false)])
}
fn compare(s: &[u8]) -> Result<u64, String> {
    let want = reference(s);
    let got = decoded(s, quick_code());
    let ok = match (&want, &got) {
        (Want::Is(w), Some(g)) => w == g,
        (Want::Refused, None) => true,
        (Want::Perhaps(w), g) => g.as_ref().is_none_or(|g| g == w),
        _ => false,
    };
    if !ok {
        let show = |v: &[u8]| if v.len() > 128 { format!("{} bytes ..{:?}", v.len(), &v[128..v.len().min(200)]) } else { format!("{v:?}") };
        return Err(format!(
            "compressed {:?}: expected {}, got {}",
            show(s),
            match &want {
                Want::Is(w) | Want::Perhaps(w) => show(w),
                Want::Refused => "a refusal".into(),
            },
            got.map_or("a refusal".to_string(), |g| show(&g))
        ));
    }
    Ok(hash(&(got, matches!(want, Want::Refused))))
}
fn stream(osize: u64, cmds: &[u8], data: &[u8]) -> Vec<u8> {
    let mut s = varint(osize);
    s.extend(varint(cmds.len() as u64));
    s.extend(cmds);
    s.extend(data);
    s
}
fn bytes(seed: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| (hash(&(seed, i)) >> 13) as u8).collect()
}
/// A header whose data signature is not one with a prediction of its own.
fn head(seed: u64) -> Vec<u8> {
    let mut h = bytes(seed, 128);
    h[40] = 0;
    h
}
/// A program with as much data as it asks for, and its neighbours: other sizes, too little or too much data, a command cut
/// off. `need`: number of data bytes after the header.
fn around(cmds: &[u8], need: usize, seed: u64) -> Result<(u64, u64), String> {
    let mut data = head(seed);
    data.extend(bytes(seed + 1, need));
    // how much does it produce?
    let natural = expand(&stream(1 << 20, cmds, &data), Some(1 << 20), &mut false).map_or(160, |v| v.len() as u64);
    let (mut h, mut n) = (0, 0);
    for (size, cut, more) in [(0i64, 0usize, 0i64), (1, 0, 0), (-1, 0, 0), (0, 0, -1), (0, 0, 1), (0, 1, 0), (7, 1, 0)] {
        let c = &cmds[..cmds.len() - cut.min(cmds.len())];
        let mut d = data.clone();
        d.resize((d.len() as i64 + more) as usize, 9);
        h ^= compare(&stream((natural as i64 + size).max(0) as u64, c, &d))?.rotate_left(n);
        n += 1;
    }
    Ok((h, n as u64))
}
/// A command and the data it consumes.
type Cmd = (Vec<u8>, usize);
fn commands(full: bool) -> Vec<Cmd> {
    let mut v: Vec<Cmd> = vec![];
    let ns: Vec<usize> = if full { (0..=21).chain([127, 128, 129, 300]).collect() } else { vec![0, 1, 3, 5] };
    for n in &ns {
        for c in 1..=3u8 {
            let mut k = vec![c];
            k.extend(varint(*n as u64));
            v.push((k, *n));
        }
    }
    let flags: Vec<u8> = if full { (0..=255).collect() } else { vec![0, 1, 3, 4, 5, 7, 8, 9, 11, 17, 21, 27] };
    for f in flags {
        let w = (f & 3) as u64 + 1;
        let strides: Vec<u64> = match (f & 16 != 0, full) {
            (false, _) => vec![0],
            (_, true) => vec![0, 1, w - 1, w, w + 1, 7, 10, 31, 32, 33, 1 << 20, 1 << 40, u64::MAX >> 1],
            _ => vec![w + 2],
        };
        for s in strides {
            let ns: &[usize] = if full { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 40] } else { &[0, 5] };
            for n in ns {
                let mut k = vec![4, f];
                if f & 16 != 0 {
                    k.extend(varint(s));
                }
                k.extend(varint(*n as u64));
                v.push((k, *n));
            }
        }
    }
    if full {
        for c in (0..=255u8).filter(|c| !(1..=4).contains(c)) {
            v.push((vec![c], if c == 10 { 12 } else { 0 }));
        }
    } else {
        v.extend([(vec![10], 12), (vec![16], 0), (vec![21], 0)]);
    }
    v
}
/// A code of its own for every context: 64 bytes of 7 bits, 128 of 9, the others of 8.
fn many_codes(ans: bool, lz: bool) -> Ent {
    let n = 41 + lz as usize;
    let mut e = Ent::auto(41).with_uint(Uint { split: 8, msb: 0, lsb: 0 });
    if lz {
        e = e.with_lz(512, 3);
    }
    let map = CtxMap::Coded { map: (0..n as u8).collect(), mtf: true, ent: Box::new(Ent::auto(1)), copies: false };
    e = e.with_map(map);
    if ans {
        e = e.ans();
        let codes = (0..n)
            .map(|c| {
                let mut v = vec![16u32; 256];
                for i in 0..64 {
                    v[(c * 6 + i) % 256] = 25;
                    v[(c * 6 + 100 + i) % 256] = 7;
                }
                Code::AnsComplex(12, v, false)
            })
            .collect();
        return e.with_codes(codes);
    }
    let codes = (0..n)
        .map(|c| {
            let mut l = vec![8u8; 256];
            for i in 0..64 {
                l[(c * 6 + i) % 256] = 7;
            }
            for i in 64..192 {
                l[(c * 6 + i) % 256] = 9;
            }
            Code::Lens(l, true)
        })
        .collect();
    e.with_codes(codes)
}
/// A sequence in which every pair of bytes follows each other.
fn all_pairs() -> Vec<u8> {
    let mut v = Vec::with_capacity(65537);
    for a in 0..=255u8 {
        v.push(a);
        for b in a as u16 + 1..=255 {
            v.extend([a, b as u8]);
        }
    }
    v.push(0);
    v
}

/// A picture with this compressed profile; the profile the decoder reports, delivered in pieces.
fn picture(s: &[u8], gray: bool, xyb: bool, w: u32) -> Vec<u8> {
    let mut img = Image::new(w, 3);
    img.color = if gray { Color::gray() } else { Color::srgb() };
    img.color.icc = true;
    img.xyb = xyb;
    img.icc_stream = Some(s.to_vec());
    let f = Frame::new(&img);
    simple(&img, &f, &ModOpts::new(Tree::single(0), 8), &mut |_, c, x, y| (c * 50 + x * 3 + y) as i32).0
}
fn reported(data: &[u8], step: usize) -> Result<(JxlColorProfile, JxlColorProfile), String> {
    let o = Opts::default();
    let mut s = Script::new(data, step);
    let mut p = Plan::new(&o);
    p.max_frames = 0;
    let cuts: Vec<usize> = (1..).map(|k| k * step).take_while(|c| *c < data.len()).chain([data.len()]).collect();
    match run_from(Dec::Init(JxlDecoder::new(o.to_jxl())), &mut p, &mut s, &cuts) {
        (_, Dec::Img(d)) => Ok((d.embedded_color_profile().clone(), d.output_color_profile().clone())),
        (o, _) => Err(format!("{:?}", o.end)),
    }
}

pub fn c18(ctx: &Ctx) {
    ctx.set_rule("the profile is what the reference interpreter makes of the compressed form, or both refuse");
    ctx.assume("tables of tags that do not fit and tags that lie outside the profile may be refused");
    // every header byte and signature
    ctx.par(256, |a| {
        ctx.case(&format!("header/signature {a}"), || {
            let mut h = 0u64;
            for b in 0..=255u8 {
                let mut d = bytes(a as u64 * 256 + b as u64, 128);
                d[40] = a as u8;
                d[41] = b;
                h = h.rotate_left(1) ^ compare(&stream(128, &[], &d))?;
                if (b"AMSx".contains(&(a as u8)) || a == 0) && b % 16 == 0 {
                    for n in 0..128usize {
                        h = h.rotate_left(1) ^ compare(&stream(n as u64, &[], &d[..n]))?;
                        compare(&stream(n as u64, &[], &d[..n + 1]))?;
                        compare(&stream(n as u64 + 1, &[], &d[..n]))?;
                        compare(&stream(n as u64, &[0], &d[..n]))?;
                    }
                }
            }
            Ok(Obs::batch(h, 256, 256))
        });
    });
    // single commands, with every argument
    let all = commands(true);
    ctx.note(format!("{} commands", all.len()));
    ctx.par(all.len(), |i| {
        let (c, need) = &all[i];
        ctx.case(&format!("command/{c:?}"), || {
            let mut cmds = vec![0];
            cmds.extend(c);
            let (h, n) = around(&cmds, *need, i as u64)?;
            // and not at the start
            let mut cmds = vec![0, 1, 33];
            cmds.extend(c);
            let (g, m) = around(&cmds, *need + 33, i as u64 + 7)?;
            Ok(Obs::batch(h ^ g.rotate_left(9), n + m, n + m))
        });
    });
    // sequences
    let few = commands(false);
    ctx.note(format!("sequences of {} commands out of {}", ctx.pick(2, 3), few.len()));
    ctx.par(few.len() * few.len(), |i| {
        let (a, b) = (&few[i / few.len()], &few[i % few.len()]);
        ctx.case(&format!("sequence/{:?}{:?}", a.0, b.0), || {
            let (mut h, mut n) = (0, 0);
            let thirds: &[Cmd] = if ctx.quick() { &few[..1] } else { &few };
            for c in thirds {
                let mut cmds = vec![0];
                for x in [a, b, c] {
                    cmds.extend(&x.0);
                }
                let (g, m) = around(&cmds, a.1 + b.1 + c.1, i as u64)?;
                h = g ^ u64::rotate_left(h, 3);
                n += m;
            }
            Ok(Obs::batch(h, n, n))
        });
    });
    // tag tables
    let values: &[u64] = &[0, 20, 132, 0xffff_ffff, 1 << 32, (1 << 32) + 12, 1 << 31, u64::MAX >> 1];
    let mut tags: Vec<Cmd> = vec![];
    for c in 0..=255u8 {
        let at: &[u64] = if c & 64 != 0 { values } else { &[0] };
        let len: &[u64] = if c & 128 != 0 { values } else { &[0] };
        if c & 63 > 22 && c & 192 != 0 {
            continue;
        }
        for a in at {
            for l in len {
                let mut k = vec![c];
                if c & 64 != 0 {
                    k.extend(varint(*a));
                }
                if c & 128 != 0 {
                    k.extend(varint(*l));
                }
                tags.push((k, if c & 63 == 1 { 4 } else { 0 }));
            }
        }
    }
    let small: Vec<&Cmd> = tags
        .iter()
        .filter(|t| {
            let c = t.0[0];
            [1u8, 2, 3, 5, 7, 11, 20].contains(&(c & 63)) && t.0[1..].iter().all(|b| [0, 20, 132, 1, 4].contains(b))
        })
        .collect();
    ctx.note(format!("{} tag commands, pairs of {}", tags.len(), small.len()));
    let table = |list: &[&Cmd], num: u64, end: bool, seed: u64| {
        let mut cmds = varint(num);
        for t in list {
            cmds.extend(&t.0);
        }
        if end {
            // room for the tags' contents
            cmds.extend([0, 1]);
            cmds.extend(varint(200));
        }
        around(&cmds, list.iter().map(|t| t.1).sum::<usize>() + if end { 200 } else { 0 }, seed)
    };
    ctx.par(tags.len(), |i| {
        ctx.case(&format!("tag/{:?}", tags[i].0), || {
            let (mut h, mut n) = (0u64, 0);
            for num in [1u64, 2, 3, 4, 20, 26, 400, 1 << 32, (1 << 32) + 2, u64::MAX >> 1] {
                for end in [true, false] {
                    let (g, m) = table(&[&tags[i]], num, end, i as u64)?;
                    h = h.rotate_left(5) ^ g;
                    n += m;
                }
            }
            Ok(Obs::batch(h, n, n))
        });
    });
    ctx.par(small.len() * small.len(), |i| {
        let (a, b) = (small[i / small.len()], small[i % small.len()]);
        ctx.case(&format!("tags/{:?}{:?}", a.0, b.0), || {
            let (mut h, mut n) = table(&[a, b], 4, true, i as u64)?;
            if !ctx.quick() {
                for c in small.iter().step_by(3) {
                    let (g, m) = table(&[a, b, c], 5, true, i as u64)?;
                    h = h.rotate_left(5) ^ g;
                    n += m;
                }
            }
            Ok(Obs::batch(h, n, n))
        });
    });
    // numbers: every length of a number, minimal or not
    ctx.case("numbers", || {
        let (mut h, mut n) = (0u64, 0);
        for len in 1..=9usize {
            for v in [0u64, 1, 5, 127] {
                let mut num = vec![v as u8 | 128];
                while num.len() < len {
                    num.push(128);
                }
                *num.last_mut().unwrap() &= 127;
                // as size of an insertion, as number of tags, as size of the commands, as size of the profile
                let mut c = vec![0, 1];
                c.extend(&num);
                let (g, m) = around(&c, v as usize, len as u64)?;
                h = h.rotate_left(3) ^ g;
                n += m;
                let mut c = num.clone();
                c.extend([0, 1, 5]);
                around(&c, 5, len as u64)?;
                let mut s = num.clone();
                s.extend([0]);
                s.extend(&head(len as u64)[..v as usize]);
                compare(&s)?;
                let mut s = vec![129, 1];
                let mut c = vec![0, 1, 1];
                c.resize(v.max(3) as usize, 16);
                s.extend(&num);
                s.extend(&c);
                s.extend(head(len as u64));
                s.push(3);
                compare(&s)?;
                n += 3;
            }
        }
        Ok(Obs::batch(h, n, n))
    });
    // cut anywhere
    ctx.case("cut", || {
        let mut cmds = vec![4, 3, 5, 200, 1, 20, 193, 132, 1, 8, 0, 1, 4, 10, 4, 27, 12, 9, 19, 3, 7];
        let d: Vec<u8> = head(5).into_iter().chain(bytes(6, 4 + 4 + 12 + 9 + 7)).collect();
        let mut h = 0u64;
        let mut n = 0;
        for size in [0u64, 1, 128, 131, 132, 200, 224, 225, 240, 241, 250, 1 << 28, (1 << 28) + 1, 1 << 40] {
            let s = stream(size, &cmds, &d);
            for k in 0..=s.len() {
                h = h.rotate_left(1) ^ compare(&s[..k])?;
                n += 1;
            }
        }
        for k in (0..cmds.len()).rev() {
            for v in [0u8, 1, 2, 63, 64, 128, 255] {
                let old = std::mem::replace(&mut cmds[k], v);
                h = h.rotate_left(1) ^ around(&cmds, 36, k as u64)?.0;
                cmds[k] = old;
                n += 7;
            }
        }
        Ok(Obs::batch(h, n, n))
    });
    // contexts: every pair of preceding bytes, a code per context
    for (ans, lz) in [(false, false), (true, false), (false, true)] {
        ctx.case(&format!("contexts/ans {ans} copies {lz}"), || {
            let p = all_pairs();
            let mut cmds = vec![0, 1];
            cmds.extend(varint(p.len() as u64));
            let mut d = head(11);
            d.extend(&p);
            let s = stream(128 + p.len() as u64, &cmds, &d);
            let Want::Is(w) = reference(&s) else { panic!("jxlmc-harness: refused") };
            if decoded(&s, many_codes(ans, lz)).as_ref() != Some(&w) {
                return Err("bytes differ".into());
            }
            // shorter ones, ending around the place where contexts begin
            for n in 1..=140usize {
                let d = bytes(n as u64, n);
                let s = stream(n.min(128) as u64, &[], &d);
                let w = match reference(&s) {
                    Want::Is(w) => Some(w),
                    _ => None,
                };
                if decoded(&s, many_codes(ans, lz)) != w {
                    return Err(format!("{n} bytes: differs"));
                }
            }
            Ok(Obs::batch(hash(&w), 65537, 65537))
        });
    }
    // symbols that are no bytes
    for sym in [255u32, 256, 300, 511, 65535] {
        ctx.case(&format!("symbol/{sym}"), || {
            let mut bw = Bw::new();
            bw.u64(130);
            let syms: Vec<Sym> = [129u32, 1, 3, 0, 1, 1].iter().map(|x| Sym::Lit(0, *x)).chain((0..123).map(|i| Sym::Lit(0, i % 7))).chain([Sym::Lit(0, sym)]).collect();
            Ent::auto(41).write_all(&mut bw, &syms);
            bw.u(64, 0);
            let mut br = BitReader::new(&bw.bytes);
            let mut r = IncrementalIccReader::new(&mut br).map_err(|e| format!("{e:?}"))?;
            let ok = r.read_all(&mut br).is_ok();
            if ok != (sym < 256) {
                return Err(format!("symbol {sym}: {ok}"));
            }
            Ok(Obs::new(sym as u64, 130))
        });
    }
    // announced sizes beyond what there is: refused, without allocating for them beyond the documented bound
    for n in [0u64, 1 << 20, 1 << 24, (1 << 24) + 1, 1 << 30, u64::MAX] {
        ctx.case(&format!("announced/{n}"), || {
            let mut bw = Bw::new();
            bw.u64(n);
            let mut e = quick_code();
            e.prepare(&[&[]]);
            e.write_header(&mut bw);
            bw.u(64, 0);
            let (r, peak) = peak_alloc(|| {
                let mut br = BitReader::new(&bw.bytes);
                match IncrementalIccReader::new(&mut br) {
                    Err(_) => false,
                    Ok(mut r) => r.read_all(&mut br).is_ok() && r.finalize(&mut br).is_ok(),
                }
            });
            if r || peak > (1 << 24) + (1 << 20) {
                return Err(format!("size {n}: {r}, {peak} bytes allocated"));
            }
            Ok(Obs::new(n, 1))
        });
    }
    // the profiles of descriptions, re-coded in several ways, through pictures delivered in pieces
    let profiles: Vec<Vec<u8>> = {
        let mut v = vec![];
        for gray in [false, true] {
            for e in [JxlColorEncoding::srgb(gray), JxlColorEncoding::linear_srgb(gray)] {
                v.push(e.maybe_create_profile().ok().flatten().expect("jxlmc-harness: profile"));
            }
        }
        v.push(head(3)[..5].to_vec());
        v.push(bytes(77, 128));
        v.push(bytes(78, 3000));
        v
    };
    ctx.par(profiles.len() * 2, |i| {
        let (p, xyb) = (&profiles[i / 2], i % 2 == 1);
        ctx.case(&format!("picture/{}/{xyb}", i / 2), || {
            let (mut h, mut n) = (0, 0);
            for mode in 0..4 {
                let s = compress(p, mode);
                let Want::Is(w) = reference(&s) else { panic!("jxlmc-harness: own compression refused") };
                assert!(w == *p, "jxlmc-harness: own compression");
                let gray = p.len() > 19 && &p[16..20] == b"GRAY";
                let data = picture(&s, gray, xyb, 5);
                for step in [data.len(), 1, 7, 64] {
                    let (e, o) = reported(&data, step)?;
                    if e.try_as_icc().as_deref() != Some(p) || !matches!(e, JxlColorProfile::Icc(_)) {
                        return Err(format!("mode {mode}, pieces of {step}: another profile reported"));
                    }
                    // a picture that is not stored as XYB comes out in its own space
                    if !xyb && o.try_as_icc().as_deref() != Some(p) {
                        return Err(format!("mode {mode}, pieces of {step}: another output profile"));
                    }
                    n += 1;
                }
                h ^= hash(&data);
            }
            Ok(Obs::batch(h, n, n))
        });
    });
}
/// Own compression, with the commands chosen by `mode`.
fn compress(p: &[u8], mode: usize) -> Vec<u8> {
    let mut data = vec![];
    let hl = p.len().min(128);
    for i in 0..hl {
        data.push(p[i].wrapping_sub(header_guess(i, p.len() as u32, &p[..i])));
    }
    if p.len() <= 128 {
        return stream(p.len() as u64, &[], &data);
    }
    let mut cmds = vec![];
    let mut at = 128;
    let num = if p.len() >= 132 { u32::from_be_bytes(p[128..132].try_into().unwrap()) as usize } else { usize::MAX };
    if mode > 0 && num < 50 && 132 + 12 * num <= p.len() {
        cmds.extend(varint(num as u64 + 1));
        at = 132;
        for _ in 0..num {
            let t = &p[at..at + 12];
            let code = TAGS.iter().position(|x| *x == &t[..4]).map_or(1, |k| k as u8 + 4);
            cmds.push(code | 192);
            if code == 1 {
                data.extend(&t[..4]);
            }
            for k in [4, 8] {
                cmds.extend(varint(u32::from_be_bytes(t[k..k + 4].try_into().unwrap()) as u64));
            }
            at += 12;
        }
        cmds.push(0);
    } else {
        cmds.push(0);
    }
    while at < p.len() {
        let n = match mode {
            0 => p.len() - at,
            _ => (p.len() - at).min(8 + (at * 7) % 23),
        };
        let s = &p[at..at + n];
        if mode > 1 && n > 11 && TYPES.iter().any(|t| *t == &s[..4]) && s[4..8] == [0; 4] {
            cmds.push(TYPES.iter().position(|t| *t == &s[..4]).unwrap() as u8 + 16);
            at += 8;
            continue;
        }
        if mode < 3 {
            cmds.push(1);
            cmds.extend(varint(n as u64));
            data.extend(s);
        } else {
            // predictions of all kinds; residuals found with the reference
            let (w, order) = ([1usize, 2, 4][at % 3], (at / 3 % 3) as u8);
            let stride = w + at % 4;
            cmds.extend([4, (w as u8 - 1) | order << 2 | 16]);
            cmds.extend(varint(stride as u64));
            cmds.extend(varint(n as u64));
            let mut res = vec![];
            for i in 0..n {
                let a = at + i / w * w;
                let v = |k: usize| p[a - k * stride..a - k * stride + w].iter().fold(0i64, |v, b| v << 8 | *b as i64);
                let g = match order {
                    0 => v(1),
                    1 => 2 * v(1) - v(2),
                    _ => 3 * (v(1) - v(2)) + v(3),
                };
                res.push(p[at + i].wrapping_sub((g >> (8 * (w - 1 - i % w))) as u8));
            }
            // column after column
            for c in 0..w {
                data.extend(res.iter().skip(c).step_by(w));
            }
        }
        at += n;
    }
    stream(p.len() as u64, &cmds, &data)
}
