//! Frames, codestreams, containers.
use super::{
    Bw, D::*, ceil_log2,
    ent::{Ent, Sym},
    head::{Frame, Image},
    modular::{Chan, Layout, ModOpts, Sections, sections},
};

/// Lehmer code tokens of a permutation.
pub fn lehmer(p: &[usize]) -> Vec<u32> {
    let mut left: Vec<usize> = (0..p.len()).collect();
    p.iter()
        .map(|x| {
            let i = left.iter().position(|y| y == x).unwrap();
            left.remove(i);
            i as u32
        })
        .collect()
}
pub fn perm_syms(p: &[usize], skip: usize) -> Vec<Sym> {
    let l = lehmer(p);
    let ctx = |v: u32| (ceil_log2(v as u64 + 1) as usize).min(7);
    let mut end = l.len();
    while end > skip && l[end - 1] == 0 {
        end -= 1;
    }
    let mut v = vec![Sym::Lit(ctx(p.len() as u32), (end - skip) as u32)];
    let mut last = 0;
    for x in &l[skip..end] {
        v.push(Sym::Lit(ctx(last), *x));
        last = *x;
    }
    v
}
/// Writes the table of contents. `perm`: for each coded position, the section stored there.
pub fn write_toc(bw: &mut Bw, sizes: &[usize], perm: Option<&[usize]>) {
    bw.b(perm.is_some());
    if let Some(p) = perm {
        let s = perm_syms(p, 0);
        let mut e = Ent::auto(8);
        e.prepare(&[&s]);
        e.write_header(bw);
        e.write_tokens(bw, &s);
    }
    bw.align();
    for s in sizes {
        bw.u32([B(10, 0), B(14, 1024), B(22, 17408), B(30, 4211712)], *s as u32);
    }
    bw.align();
}
/// `order`: logical section stored at each position of the file.
pub fn assemble(img: &Image, f: &Frame, secs: &[Vec<u8>], order: Option<&[usize]>, bw: &mut Bw) {
    bw.align();
    f.write(bw, img);
    assert_eq!(secs.len(), f.num_sections(img));
    match order {
        None => {
            write_toc(bw, &secs.iter().map(|s| s.len()).collect::<Vec<_>>(), None);
            for s in secs {
                bw.bytes.extend_from_slice(s);
            }
        }
        Some(o) => {
            // the coded permutation maps logical sections to positions
            let mut inv = vec![0; o.len()];
            for (pos, s) in o.iter().enumerate() {
                inv[*s] = pos;
            }
            write_toc(bw, &o.iter().map(|s| secs[*s].len()).collect::<Vec<_>>(), Some(&inv));
            for s in o {
                bw.bytes.extend_from_slice(&secs[*s]);
            }
        }
    }
    bw.nbits = bw.bytes.len() * 8;
}
pub fn layout(img: &Image, f: &Frame) -> Layout {
    Layout {
        group_dim: f.group_dim(),
        size: f.size(img),
        groups: f.groups(img),
        lf_groups: f.lf_groups(img),
        passes: (0..f.passes.num as usize).map(|p| f.bracket(p)).collect(),
    }
}
/// The channels of a modular frame, before any transform.
pub fn channels(img: &Image, f: &Frame) -> Vec<Chan> {
    let (w, h) = f.size(img);
    let mut v = vec![];
    let nc = if f.modular { img.colors() } else { 0 };
    let (mh, mv) = f.max_shift();
    for i in 0..nc {
        let (hs, vs) = if f.ycbcr {
            (mh - [0, 1, 1, 0][f.jpeg_up[i] as usize], mv - [0, 1, 0, 1][f.jpeg_up[i] as usize])
        } else {
            (0, 0)
        };
        v.push(Chan::sub(w.div_ceil(1 << hs), h.div_ceil(1 << vs), hs as i32, vs as i32));
    }
    let (uw, uh) = f.size_up(img);
    for (i, e) in img.ecs.iter().enumerate() {
        let up = (f.ec_up[i] << if f.has_lf() { 0 } else { e.dim_shift }) as usize;
        let s = up.ilog2() as i32 - f.up.ilog2() as i32;
        v.push(Chan::sub(uw.div_ceil(up), uh.div_ceil(up), s, s));
    }
    v
}
/// What comes before the modular part of the first section (patches, splines, noise), without LfQuant.
pub type Prefix<'a> = Option<&'a dyn Fn(&mut Bw)>;

/// Codes a modular frame; returns the sections' bytes and the decoded channels.
pub fn modular_frame(
    img: &Image,
    f: &Frame,
    o: &ModOpts,
    prefix: Prefix,
    target: &mut dyn FnMut(u32, usize, usize, usize) -> i32,
) -> (Vec<Vec<u8>>, Vec<Chan>) {
    assert!(f.modular);
    let lay = layout(img, f);
    let Sections { global, lf, hf, chans, .. } = sections(&lay, channels(img, f), o, target);
    let mut g = Bw::new();
    if let Some(p) = prefix {
        p(&mut g);
    }
    g.b(true); // default LF quantisation
    g.append(&global);
    let mut secs = vec![];
    if f.num_sections(img) == 1 {
        g.append(&lf[0]);
        g.append(&hf[0][0]);
        secs.push(g.bytes);
    } else {
        secs.push(g.bytes);
        secs.extend(lf.into_iter().map(|b| b.bytes));
        secs.push(vec![]);
        secs.extend(hf.into_iter().flatten().map(|b| b.bytes));
    }
    (secs, chans)
}
/// A whole file of one modular frame whose coded channels are aimed at `target`.
pub fn simple(img: &Image, f: &Frame, o: &ModOpts, target: &mut dyn FnMut(u32, usize, usize, usize) -> i32) -> (Vec<u8>, Vec<Chan>) {
    let mut bw = Bw::new();
    img.write(&mut bw);
    let (secs, chans) = modular_frame(img, f, o, None, target);
    assemble(img, f, &secs, None, &mut bw);
    (bw.bytes, chans)
}
pub fn be32(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}
pub fn bx(ty: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut v = be32(data.len() as u32 + 8).to_vec();
    v.extend(ty);
    v.extend(data);
    v
}
pub const SIG: [u8; 12] = [0, 0, 0, 12, b'J', b'X', b'L', b' ', 0x0d, 0x0a, 0x87, 0x0a];
pub fn ftyp(version: u32) -> Vec<u8> {
    let mut d = b"jxl ".to_vec();
    d.extend(be32(version));
    d.extend(b"jxl ");
    bx(b"ftyp", &d)
}
