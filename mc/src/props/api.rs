//! API-level explorations over whole files: signature (C25), independence (C24), skipping and
//! scanning (C04), seeking (C03), damaged input (C09).
use crate::dec::*;
use crate::engine::*;
use crate::seeds::{self, Seed};
use jxl::api::*;

// ------------------------------------------------------------------------------------------ C25
const CONT: [u8; 12] = [0, 0, 0, 12, 0x4a, 0x58, 0x4c, 0x20, 0x0d, 0x0a, 0x87, 0x0a];
const CODE: [u8; 2] = [0xff, 0x0a];

#[derive(Debug, PartialEq, Clone, Copy)]
enum Sig {
    Cont,
    Code,
    No,
    More(usize),
}
fn sig_oracle(b: &[u8]) -> Sig {
    if b.starts_with(&CONT) {
        Sig::Cont
    } else if b.starts_with(&CODE) {
        Sig::Code
    } else if CONT.starts_with(b) && CODE.starts_with(b) {
        // empty: the shorter signature decides how much is certainly missing
        Sig::More(2)
    } else if CONT.starts_with(b) {
        Sig::More(12 - b.len())
    } else if CODE.starts_with(b) {
        Sig::More(2 - b.len())
    } else {
        Sig::No
    }
}
fn sig_case(b: &[u8]) -> Result<(u64, u64), String> {
    let want = sig_oracle(b);
    let got = match check_signature(b) {
        ProcessingResult::Complete { result: None } => Sig::No,
        ProcessingResult::Complete { result: Some(JxlSignatureType::Container) } => Sig::Cont,
        ProcessingResult::Complete { result: Some(JxlSignatureType::Codestream) } => Sig::Code,
        ProcessingResult::NeedsMoreInput { size_hint, .. } => Sig::More(size_hint),
    };
    if got != want {
        return Err(format!("{b:02x?}: detection says {got:?}, the format says {want:?}"));
    }
    // The decoder accepts the start of the file exactly when detection does, whole and byte by byte.
    for step in [b.len().max(1), 1] {
        let mut s = Script::new(b, 0);
        let cuts: Vec<usize> = (1..=b.len().div_ceil(step)).map(|i| (i * step).min(b.len())).collect();
        let o = run(&mut Plan::new(&Opts { sample_limit: Some(100_000), ..Opts::default() }), &mut s, &cuts);
        let invalid = matches!(&o.end, End::Error(e) if e.contains("Signature"));
        // The decoder may wait for a second byte before it rejects.
        let waits = b.len() < 2 && matches!(o.end, End::NeedMore(_));
        if invalid != (want == Sig::No) && !waits {
            return Err(format!("{b:02x?} (step {step}): detection {want:?} but the decoder ends with {:?}", o.end));
        }
        if matches!(want, Sig::More(_)) && !matches!(o.end, End::NeedMore(n) if n >= 1) {
            return Err(format!("{b:02x?}: incomplete signature but the decoder ends with {:?}", o.end));
        }
    }
    Ok((hash(&format!("{want:?}")), 3))
}

pub fn c25(ctx: &Ctx) {
    ctx.set_rule("check_signature and the decoder against the definition on: every byte string up to length 2 (thorough: 3); every single-byte replacement (256 values) of every prefix of the container signature, alone and followed by 0..3 bytes of each of 5 tails; every pair of positions over a 6-value alphabet; every string over {00,0c,ff,0a,4a} up to length 6; distinct = answer x input");
    let blocks: Vec<u8> = (0..=255).collect();
    ctx.case("empty", || sig_case(&[]).map(|(d, s)| Obs::new(d, s)));
    ctx.par(blocks.len(), |i| {
        ctx.case(&format!("short/{i:02x}"), || {
            let (mut d, mut s, mut n) = (0, 0, 0);
            let mut go = |b: &[u8]| -> Result<(), String> {
                let (x, y) = sig_case(b)?;
                d = hash(&(d, x));
                s += y;
                n += 1;
                Ok(())
            };
            go(&[i as u8])?;
            for j in 0..=255u8 {
                go(&[i as u8, j])?;
                if !ctx.quick() {
                    for k in 0..=255u8 {
                        go(&[i as u8, j, k])?;
                    }
                }
            }
            Ok(Obs::batch(hash(&(d, i)), s, n))
        });
    });
    let tails: [&[u8]; 6] = [&[], &[0], &[0xff, 0x0a], &[0, 0, 0], &[0, 0, 0, 0x14, b'f', b't', b'y', b'p'], &[0xff]];
    ctx.par(13 * 12, |k| {
        let (len, pos) = (k / 12, k % 12);
        if pos >= len.max(1) || len > 12 {
            return;
        }
        ctx.case(&format!("mutate/{len}/{pos}"), || {
            let (mut d, mut s, mut n) = (0, 0, 0);
            for v in 0..=255u8 {
                for t in tails {
                    let mut b = CONT[..len].to_vec();
                    if len > 0 {
                        b[pos] = v;
                    }
                    b.extend_from_slice(t);
                    let (x, y) = sig_case(&b)?;
                    d = hash(&(d, x, b));
                    s += y;
                    n += 1;
                }
            }
            for p2 in 0..len {
                for v in [0, 0x0a, 0x0c, 0xff, 0x20, 0x0d] {
                    for w in [0, 0x0a, 0x0c, 0xff, 0x20, 0x0d] {
                        let mut b = CONT[..len].to_vec();
                        b[pos] = v;
                        b[p2] = w;
                        let (x, y) = sig_case(&b)?;
                        d = hash(&(d, x, b));
                        s += y;
                        n += 1;
                    }
                }
            }
            Ok(Obs::batch(d, s, n))
        });
    });
    let al = [0u8, 0x0c, 0xff, 0x0a, 0x4a];
    let depth = ctx.pick(6u32, 8);
    for l in 3..=depth {
        let total = 5usize.pow(l);
        let per = 625;
        ctx.par(total / per.min(total), |blk| {
            ctx.case(&format!("alphabet/{l}/{blk}"), || {
                let (mut d, mut s, mut n) = (0, 0, 0);
                for i in blk * per..((blk + 1) * per).min(total) {
                    let mut b = vec![];
                    let mut v = i;
                    for _ in 0..l {
                        b.push(al[v % 5]);
                        v /= 5;
                    }
                    let (x, y) = sig_case(&b)?;
                    d = hash(&(d, x, b));
                    s += y;
                    n += 1;
                }
                Ok(Obs::batch(d, s, n))
            })
        });
    }
}

// ------------------------------------------------------------------------------------------ C04
/// A decode of `s` in which the frames of `set` are skipped after `lead` bytes past the point where
/// their header was reported (None: at once), fed in `chunk`-byte pieces.
fn skipped(s: &Seed, opts: &Opts, set: &dyn Fn(usize) -> bool, chunk: usize, late: Option<usize>) -> CaseResult {
    let n = s.n();
    let cuts: Vec<usize> = (1..=n.div_ceil(chunk)).map(|i| (i * chunk).min(n)).collect();
    let mut p = Plan::new(opts);
    p.skip = set;
    p.skip_after_needs = late.unwrap_or(0);
    let mut sc = Script::new(&s.data, 0);
    let o = run(&mut p, &mut sc, &cuts);
    for (i, f) in o.frames.iter().enumerate() {
        if set(i) != f.skipped && late.is_none() {
            return Err(format!("frame {i} skipped={}", f.skipped));
        }
    }
    if let Some(d) = s.full.diff(&o) {
        return Err(format!("{}: decoding all vs skipping some: {d}", s.name));
    }
    Ok(Obs::new(hash(&(o.digest(), o.steps)), o.steps))
}

pub fn c04(ctx: &Ctx) {
    ctx.set_rule("for every file with at least one visible frame: every subset of frames skipped when there are at most 9 (thorough 12), otherwise every single, pair, prefix, suffix and interval; delivered whole and in pieces; skipping at once or after the k-th request for more input inside the frame; with and without preview; scan-only decode; all compared to the full decode (frames, names, durations, scanned list, file length); distinct = (outcome, calls)");
    for preview in [true, false] {
        let opts = Opts { skip_preview: preview, ..Opts::default() };
        let ss: Vec<Seed> = seeds::valid(ctx, ctx.pick(14_000, 80_000), ctx.pick(400_000, 4_000_000), &opts)
            .into_iter()
            .filter(|s| preview || s.full.info.as_ref().is_some_and(|i| i.contains("preview") || !i.ends_with("None")))
            .collect();
        let mut jobs: Vec<(usize, u8, usize, usize)> = vec![];
        for (i, s) in ss.iter().enumerate() {
            let k = s.full.frames.len();
            let budget: u64 = ctx.pick(3_000_000, 40_000_000);
            if k <= ctx.pick(9, 12) && (s.cost << k) <= budget * 4 {
                for m in 0..1usize << k {
                    jobs.push((i, 0, m, 0));
                }
            } else {
                for a in 0..k {
                    for b in a..k {
                        if (b - a == 0 || a == 0 || b == k - 1 || b - a == 1) && (k as u64 * 4 * s.cost <= budget * 4) {
                            jobs.push((i, 1, a, b));
                        }
                    }
                }
                jobs.push((i, 1, 0, k - 1));
            }
            for c in [1, 2, 7, 64, 1000] {
                if c < s.n() && (s.n() / c) as u64 * 20 + s.cost <= budget / 8 {
                    for m in [usize::MAX, 0x5555_5555, 0xAAAA_AAAA, 1, usize::MAX - 1] {
                        jobs.push((i, 2, c, m));
                    }
                    for late in 1..=ctx.pick(6, 30) {
                        if (s.n() / c) as u64 * 20 + s.cost <= budget / 60 {
                            jobs.push((i, 3, c, late));
                            jobs.push((i, 4, c, late));
                        }
                    }
                }
            }
            jobs.push((i, 5, 0, 0));
        }
        ctx.par(jobs.len(), |j| {
            if ctx.out_of_time() {
                return;
            }
            let (i, kind, a, b) = jobs[j];
            let s = &ss[i];
            let name = ["subset", "interval", "pieces", "late", "lateodd", "scan"][kind as usize];
            ctx.case(&format!("{name}/{}/{preview}/{a}/{b:x}", s.name), || match kind {
                0 => skipped(s, &opts, &|f| a >> f & 1 == 1, s.n(), None),
                1 => skipped(s, &opts, &|f| (a..=b).contains(&f), s.n(), None),
                2 => skipped(s, &opts, &|f| b >> (f % 64) & 1 == 1, a, None),
                3 => skipped(s, &opts, &|_| true, a, Some(b)),
                4 => skipped(s, &opts, &|f| f % 2 == 0, a, Some(b)),
                _ => {
                    let o = oneshot(&s.data, &Opts { scan_only: true, ..opts.clone() }, FmtSel::F32All);
                    match s.full.diff(&o) {
                        Some(d) => Err(format!("{}: decoding vs scanning only: {d}", s.name)),
                        None => Ok(Obs::new(o.digest(), o.steps)),
                    }
                }
            })
        });
    }
}

// ------------------------------------------------------------------------------------------ C03
/// The state from which a seek is made.
#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    /// After the image header, nothing behind it delivered.
    Header,
    Fresh,
    Finished,
    MidFrames(usize),
}

fn seek_chain(s: &Seed, opts: &Opts, targets: &[VisibleFrameInfo], from: From, order: &[usize], tail: bool, chunk: usize) -> CaseResult {
    let mut steps = 0;
    let n = s.n();
    let maxf = match from {
        From::Fresh | From::Header => 0,
        From::MidFrames(k) => k,
        From::Finished => usize::MAX,
    };
    let mut p = Plan::new(opts);
    p.max_frames = maxf;
    let (mut sc, cuts) = if from == From::Header { (Script::new(&s.data, 0), (1..=n).collect()) } else { (Script::new(&s.data, n), vec![n]) };
    let (o, d) = run_from(Dec::Init(JxlDecoder::new(opts.to_jxl())), &mut p, &mut sc, &cuts);
    steps += o.steps;
    let Dec::Img(mut x) = d else { return Err(format!("no decoder to seek with: {:?}", o.end)) };
    let mut dg = 0u64;
    for (q, &t) in order.iter().enumerate() {
        let tg = &targets[t];
        let st = tg.seek_target;
        let off = st.decode_start_file_offset as usize;
        if off > n {
            return Err(format!("frame {t}: start offset {off} beyond the file ({n})"));
        }
        x.start_new_frame(st);
        let rest = &s.data[off..];
        let cuts: Vec<usize> = (1..=rest.len().div_ceil(chunk)).map(|i| (i * chunk).min(rest.len())).collect();
        let last = q + 1 == order.len();
        let mut p = Plan::new(opts);
        p.max_frames = if tail && last { usize::MAX } else { 1 };
        let mut sc = Script::new(rest, 0);
        let (o, d) = run_from(Dec::Img(x), &mut p, &mut sc, &cuts);
        steps += o.steps;
        let ctxt = || format!("{}: seek to frame {t} (start {off}, {} to skip) from {from:?} after {:?}", s.name, st.visible_frames_to_skip, &order[..q]);
        if o.end != End::Done {
            return Err(format!("{}: ends with {:?}", ctxt(), o.end));
        }
        let want = if tail && last { s.full.frames.len() - t } else { 1 };
        if o.frames.len() != want {
            return Err(format!("{}: {} frames reported, expected {want}", ctxt(), o.frames.len()));
        }
        // Going on is right as long as nothing from before the restart is needed.
        let known = targets[t..].iter().take_while(|x| x.seek_target.decode_start_file_offset as usize >= off).count();
        for (k, f) in o.frames.iter().enumerate().take(known) {
            if let Some(e) = frame_diff(&s.full.frames[t + k], f) {
                return Err(format!("{}: frame {} sequential vs sought: {e}", ctxt(), t + k));
            }
            if f.skipped {
                return Err("frame not decoded".into());
            }
        }
        if tail && last && o.has_more != Some(false) {
            return Err(format!("{}: not finished at the end", ctxt()));
        }
        if tail && last && o.file_length != s.full.file_length {
            return Err(format!("{}: file length {:?} instead of {:?}", ctxt(), o.file_length, s.full.file_length));
        }
        dg = hash(&(dg, o.digest()));
        let Dec::Img(y) = d else { return Err("decoder not between frames after a seek".into()) };
        x = y;
    }
    Ok(Obs::new(hash(&(dg, steps)), steps))
}

pub fn c03(ctx: &Ctx) {
    ctx.set_rule("for every file: every ordered pair (thorough: triple for small ones) of seek targets from {just the image header delivered, fresh, finished, after k frames}, each followed to the end of the file (the frames after the target are compared up to the first that depends on a frame before the restart) and the file length reported there, delivered whole and in small pieces, with targets from a scan and from a decode; every frame reported must equal the sequential one; list invariants (index order, keyframe = nothing to skip, offsets monotone and inside the file); distinct = (decoded frames digest, calls)");
    let opts = Opts::default();
    let ss = seeds::valid(ctx, ctx.pick(14_000, 80_000), ctx.pick(60_000, 3_000_000), &opts);
    let infos: Vec<Vec<VisibleFrameInfo>> = ss
        .iter()
        .map(|s| {
            let (_, d) = {
                let o = Opts { scan_only: true, ..opts.clone() };
                let mut p = Plan::new(&o);
                let mut sc = Script::new(&s.data, s.n());
                run_from(Dec::Init(JxlDecoder::new(o.to_jxl())), &mut p, &mut sc, &[s.n()])
            };
            match d {
                Dec::Img(x) => x.scanned_frames().to_vec(),
                _ => vec![],
            }
        })
        .collect();
    let mut jobs: Vec<(usize, From, Vec<usize>, bool, usize)> = vec![];
    for (i, s) in ss.iter().enumerate() {
        let k = infos[i].len();
        ctx.case(&format!("list/{}", s.name), || {
            if k != s.full.frames.len() {
                return Err(format!("{}: {k} frames listed, {} decoded", s.name, s.full.frames.len()));
            }
            let mut prev = 0;
            for (j, f) in infos[i].iter().enumerate() {
                let st = &f.seek_target;
                let bad = f.index != j
                    || f.is_keyframe != (st.visible_frames_to_skip == 0)
                    || st.visible_frames_to_skip > j
                    || st.decode_start_file_offset > f.file_offset
                    || f.file_offset < prev
                    || f.file_offset as usize >= s.n()
                    || f.is_last != (j + 1 == k)
                    || (st.decode_start_file_offset > infos[i][j - st.visible_frames_to_skip].file_offset)
                    || f.name != s.full.frames[j].name;
                if bad {
                    return Err(format!("{}: inconsistent entry {}", s.name, scan_string(f)));
                }
                prev = f.file_offset;
            }
            Ok(Obs::new(hash(&s.full.scanned), k as u64))
        });
        let per = s.cost / (k.max(1) as u64) * 3;
        let budget: u64 = ctx.pick(6_000_000, 60_000_000);
        let froms = [From::Header, From::Fresh, From::Finished, From::MidFrames(1), From::MidFrames(k / 2)];
        for fr in froms {
            for a in 0..k {
                if k as u64 * s.cost * 2 <= budget {
                    jobs.push((i, fr, vec![a], true, usize::MAX));
                }
                jobs.push((i, fr, vec![a], false, usize::MAX));
                if (k * k) as u64 * per * 4 <= budget {
                    for b in 0..k {
                        jobs.push((i, fr, vec![a, b], false, usize::MAX));
                        if (k * k) as u64 * s.cost <= budget / 8 {
                            jobs.push((i, fr, vec![a, b], true, usize::MAX));
                        }
                        if (k * k * k) as u64 * per <= budget / 8 {
                            for c in 0..k {
                                jobs.push((i, fr, vec![a, b, c], false, usize::MAX));
                            }
                        }
                    }
                }
            }
        }
        for a in 0..k {
            for ch in [1, 5, 100] {
                if ch < s.n() && (s.n() / ch) as u64 * 20 * k as u64 <= budget / 4 {
                    jobs.push((i, From::Finished, vec![a], true, ch));
                    jobs.push((i, From::Fresh, vec![a], true, ch));
                }
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        if ctx.out_of_time() {
            return;
        }
        let (i, fr, ord, tail, ch) = &jobs[j];
        let s = &ss[*i];
        ctx.case(&format!("seek/{}/{fr:?}/{ord:?}/tail={tail}/chunk={ch}", s.name), || {
            seek_chain(s, &opts, &infos[*i], *fr, ord, *tail, (*ch).min(s.n()))
        });
    });
}

// ------------------------------------------------------------------------------------------ C09
fn damaged(data: &[u8], opts: &Opts, chunk: usize, out: &mut (u64, u64, u64)) -> Result<(), String> {
    let n = data.len();
    let fmt = FmtSel::F32All;
    let mut o = oneshot(data, opts, fmt.clone());
    // in pieces, flushing, with padding canaries
    let cuts: Vec<usize> = (1..=n.div_ceil(chunk)).map(|i| (i * chunk).min(n)).collect();
    let mut p = Plan::new(opts).fmt(fmt.clone());
    let yes = |_: usize| true;
    p.flush = &yes;
    p.pad = 16;
    p.fill = 0xC3;
    let mut sc = Script::new(data, 0);
    let o2 = run(&mut p, &mut sc, &cuts);
    for f in &o2.frames {
        if f.size.1 == 0 {
            continue;
        }
        for b in &f.bufs {
            let st = b.len() / f.size.1;
            if st >= 16 && b.chunks(st).any(|r| r[st - 16..].iter().any(|x| *x != 0xC3)) {
                return Err("bytes outside the rows were written".into());
            }
        }
    }
    // An input that is both damaged and too short may be rejected either way first (sections are taken in the order in
    // which they arrive), so the verdicts compared are "accepted" and "not accepted".
    let fin = |o: &Outcome| o.end.class() == "done";
    // Nothing requires what follows the end of the codestream in the file to be looked at, nor to be ignored.
    let end = o2.file_length.unwrap_or(0) as usize;
    let tail = !fin(&o) && fin(&o2) && end < n && fin(&oneshot(&data[..end], opts, fmt.clone()));
    if fin(&o) != fin(&o2) && !tail {
        return Err(format!("in one piece: {:?}, in pieces of {chunk} with flushes: {:?}", o.end, o2.end));
    }
    if tail {
        o = oneshot(&data[..end], opts, fmt);
    }
    if fin(&o) && (o.info != o2.info || o.frames.iter().filter(|f| !f.skipped).count() != o2.frames.iter().filter(|f| !f.skipped).count()) {
        return Err(format!("in one piece: {} frames, in pieces with flushes: {}", o.frames.len(), o2.frames.len()));
    }
    out.0 = hash(&(out.0, o.digest()));
    out.1 += o.steps + o2.steps;
    out.2 += 1;
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    ctx.set_rule("for every small seed file: every byte replaced by every value (tiny files: all 256; larger: 8 bit flips + 00/ff/+1/-1), every adjacent byte pair deleted / duplicated / swapped, every byte insertion from {00,01,7f,80,ff}, all pairs of bit flips in the first bytes (headers), each decoded in one piece and in pieces with flushes into padded buffers: no panic, no hang (60 s watchdog), no out-of-row write, the same verdict and number of frames both ways; distinct = outcome digests");
    ctx.assume("sample_limit 200,000 so that damaged size fields stay decodable quickly");
    let opts = Opts { sample_limit: Some(200_000), ..Opts::default() };
    let ss = seeds::all(ctx, ctx.pick(1_500, 10_000), ctx.pick(12_000, 100_000), &opts);
    struct J<'a> {
        s: &'a Seed,
        kind: u8,
        pos: usize,
    }
    let mut jobs = vec![];
    let budget: u64 = ctx.pick(5_000_000, 60_000_000);
    for s in &ss {
        let n = s.n();
        for pos in 0..n {
            if n as u64 * 256 * s.cost * 2 <= budget * 2 {
                jobs.push(J { s, kind: 0, pos });
            } else if n as u64 * 12 * s.cost * 2 <= budget * 3 {
                jobs.push(J { s, kind: 1, pos });
            }
            if n as u64 * 9 * s.cost * 2 <= budget * 2 {
                jobs.push(J { s, kind: 2, pos });
            }
            let hb = n.min(ctx.pick(10, 24));
            if pos < hb && (hb * hb * 32) as u64 * s.cost * 2 <= budget {
                jobs.push(J { s, kind: 3, pos });
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        if ctx.out_of_time() {
            return;
        }
        let J { s, kind, pos } = jobs[j];
        let n = s.n();
        let try_one = |id: String, d: Vec<u8>| {
            ctx.case(&id, || {
                let mut o = (0, 0, 0);
                damaged(&d, &opts, 7, &mut o).map_err(|e| format!("{}: {e}", s.name))?;
                Ok(Obs::batch(o.0, o.1, 2))
            })
        };
        match kind {
            0 | 1 => {
                let vals: Vec<u8> = if kind == 0 {
                    (0..=255).collect()
                } else {
                    let b = s.data[pos];
                    let mut v: Vec<u8> = (0..8).map(|k| b ^ (1 << k)).collect();
                    v.extend([0, 0xff, b.wrapping_add(1), b.wrapping_sub(1)]);
                    v
                };
                for v in vals {
                    let mut d = s.data.clone();
                    d[pos] = v;
                    try_one(format!("byte/{}/{pos}/{v:02x}", s.name), d);
                }
            }
            2 => {
                let mut d = s.data.clone();
                d.remove(pos);
                try_one(format!("del/{}/{pos}", s.name), d);
                let mut d = s.data.clone();
                d.insert(pos, s.data[pos]);
                try_one(format!("dup/{}/{pos}", s.name), d);
                if pos + 1 < n {
                    let mut d = s.data.clone();
                    d.swap(pos, pos + 1);
                    try_one(format!("swap/{}/{pos}", s.name), d);
                    let mut d = s.data.clone();
                    d.remove(pos);
                    d.remove(pos);
                    try_one(format!("del2/{}/{pos}", s.name), d);
                }
                for v in [0, 1, 0x7f, 0x80, 0xff] {
                    let mut d = s.data.clone();
                    d.insert(pos, v);
                    try_one(format!("ins/{}/{pos}/{v:02x}", s.name), d);
                }
                let mut d = s.data[..pos].to_vec();
                d.extend_from_slice(&s.data[..n - pos]);
                try_one(format!("splice/{}/{pos}", s.name), d);
            }
            _ => {
                let hb = n.min(ctx.pick(10, 24)) * 8;
                for b1 in pos * 8..pos * 8 + 8 {
                    for b2 in b1 + 1..hb {
                        let mut d = s.data.clone();
                        d[b1 / 8] ^= 1 << (b1 % 8);
                        d[b2 / 8] ^= 1 << (b2 % 8);
                        try_one(format!("bits/{}/{b1}/{b2}", s.name), d);
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------ C24
/// Decoder driven one call at a time.
struct Stepper<'a> {
    d: Dec,
    opts: Opts,
    sc: Script<'a>,
    cuts: Vec<usize>,
    cut: usize,
    frames: Vec<FrameOut>,
    fmt: Option<JxlPixelFormat>,
    bufs: Option<Bufs>,
    info: Option<String>,
    end: Option<End>,
    ask: bool,
}
impl<'a> Stepper<'a> {
    fn new(data: &'a [u8], opts: &Opts, chunk: usize, ask: bool) -> Self {
        let n = data.len();
        Stepper {
            d: Dec::Init(JxlDecoder::new(opts.to_jxl())),
            opts: opts.clone(),
            sc: Script::new(data, 0),
            cuts: (1..=n.div_ceil(chunk)).map(|i| (i * chunk).min(n)).collect(),
            cut: 0,
            frames: vec![],
            fmt: None,
            bufs: None,
            info: None,
            end: None,
            ask,
        }
    }
    fn done(&self) -> bool {
        self.end.is_some()
    }
    /// One API call, feeding the next piece when asked for more.
    fn step(&mut self) {
        let d = std::mem::replace(&mut self.d, Dec::Gone);
        if self.ask {
            // asking for information in between never changes anything
            match &d {
                Dec::Img(x) => {
                    let _ = (info_string(x), x.scanned_frames().len(), x.has_more_frames(), x.file_length());
                }
                Dec::Frm(x) => {
                    let _ = (x.frame_header().size, x.scanned_frames().len());
                }
                Dec::Init(x) => {
                    let _ = x.scanned_frames().len();
                }
                Dec::Gone => {}
            }
        }
        let sc = &mut self.sc;
        let more;
        macro_rules! go {
            ($e:expr, $ok:expr, $fb:expr) => {
                match $e {
                    Ok(ProcessingResult::Complete { result }) => {
                        $ok(result);
                        more = None;
                    }
                    Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                        self.d = $fb(fallback);
                        more = Some(size_hint);
                    }
                    Err(e) => {
                        self.end = Some(End::Error(format!("{e:?}")));
                        return;
                    }
                }
            };
        }
        match d {
            Dec::Init(x) => go!(x.process(sc, None), |mut r: JxlDecoder<states::WithImageInfo>| {
                let f = f32_format(&r);
                r.set_pixel_format(f.clone());
                self.fmt = Some(f);
                self.info = Some(info_string(&r));
                self.d = Dec::Img(r);
            }, Dec::Init),
            Dec::Img(x) => {
                if !x.has_more_frames() {
                    self.end = Some(End::Done);
                    return;
                }
                go!(x.process(sc, None), |r: JxlDecoder<states::WithFrameInfo>| {
                    let h = r.frame_header();
                    self.frames.push(FrameOut { name: h.name, duration: h.duration, size: h.size, bufs: vec![], skipped: true });
                    self.d = Dec::Frm(r);
                }, Dec::Img)
            }
            Dec::Frm(x) => {
                let fi = self.frames.len() - 1;
                let size = self.frames[fi].size;
                let fmt = self.fmt.clone().unwrap();
                let mut b = self.bufs.take().unwrap_or_else(|| Bufs::for_format(&fmt, size, 0, 0));
                let r = {
                    let mut o = b.outs();
                    x.process(sc, &mut o, None)
                };
                go!(r, |r: JxlDecoder<states::WithImageInfo>| {
                    self.frames[fi].bufs = std::mem::take(&mut b.data);
                    self.frames[fi].skipped = false;
                    self.d = Dec::Img(r);
                }, Dec::Frm);
                if more.is_some() {
                    self.bufs = Some(b);
                }
            }
            Dec::Gone => return,
        }
        if let Some(h) = more {
            while self.cut < self.cuts.len() && self.cuts[self.cut] <= self.sc.visible {
                self.cut += 1;
            }
            if self.cut < self.cuts.len() {
                self.sc.visible = self.cuts[self.cut];
            } else {
                self.end = Some(End::NeedMore(h));
            }
        }
        let _ = &self.opts;
    }
    fn same_as(&self, r: &Outcome) -> Option<String> {
        if self.info != r.info {
            return Some("image info differs".into());
        }
        if self.end.as_ref().map(|e| e.class()) != Some(r.end.class()) {
            return Some(format!("ends with {:?} instead of {:?}", self.end, r.end));
        }
        for (i, (a, b)) in r.frames.iter().zip(&self.frames).enumerate() {
            if let Some(d) = frame_diff(a, b) {
                return Some(format!("frame {i}: alone vs interleaved: {d}"));
            }
        }
        None
    }
}

/// Digest of a decode made in a fresh process.
pub fn fresh_digest(file: &str) {
    let d = std::fs::read(file).unwrap();
    let mut out = String::new();
    for hp in [true, false] {
        let o = oneshot(&d, &Opts { high_precision: hp, ..Opts::default() }, FmtSel::F32All);
        out += &format!("{:016x} ", o.digest());
    }
    println!("{out}");
}

pub fn c24(ctx: &Ctx) {
    ctx.set_rule("reference = decode in a fresh process per file; then in one process: every ordered pair of files decoded one after the other on the same thread, all interleavings of the calls of two decoders fed in k pieces (C(2k,k) merges) for every pair of a small set, with getters called at every step, with a third decoder dropped at every step or failing on damaged bytes in between, decoders moved between threads at every call, and all threads decoding different files at once; every result must equal the reference; distinct = (pair, schedule, digest)");
    let opts = Opts::default();
    let ss = seeds::all(ctx, ctx.pick(6_000, 20_000), ctx.pick(8_000, 40_000), &opts);
    let exe = std::env::current_exe().unwrap();
    let dir = root().join("out").join(format!("c24-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    ctx.par(ss.len(), |i| {
        let s = &ss[i];
        ctx.case(&format!("fresh/{}", s.name), || {
            let p = dir.join(format!("{i}.jxl"));
            std::fs::write(&p, &s.data).unwrap();
            let r = std::process::Command::new(&exe).arg("digest").arg(&p).output().map_err(|e| e.to_string())?;
            let _ = std::fs::remove_file(&p);
            let mut want = String::new();
            for hp in [true, false] {
                let o = oneshot(&s.data, &Opts { high_precision: hp, ..Opts::default() }, FmtSel::F32All);
                want += &format!("{:016x} ", o.digest());
            }
            let got = String::from_utf8_lossy(&r.stdout).trim().to_string();
            if got != want.trim() {
                return Err(format!("{}: decode in a fresh process gives {got}, here {want}", s.name));
            }
            Ok(Obs::new(hash(&want), 2))
        });
    });
    let _ = std::fs::remove_dir(&dir);
    // Sequential pairs on one thread.
    ctx.par(ss.len(), |i| {
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("after/{}", ss[i].name), || {
            let mut st = 0;
            let mut k = 0;
            for (j, t) in ss.iter().enumerate() {
                if (ss[i].cost + t.cost) * ss.len() as u64 > ctx.pick(1_500_000, 20_000_000) {
                    continue;
                }
                let a = oneshot(&ss[i].data, &opts, FmtSel::F32All);
                let b = oneshot(&t.data, &opts, FmtSel::F32All);
                if let Some(d) = ss[i].full.diff(&a).or(t.full.diff(&b)) {
                    return Err(format!("{} then {}: {d} (file {j})", ss[i].name, t.name));
                }
                st += a.steps + b.steps;
                k += 2;
            }
            Ok(Obs::batch(hash(&(i, ss[i].full.digest())), st, k.max(1)))
        });
    });
    // All merges of the call sequences of two decoders.
    let small: Vec<&Seed> = ss.iter().filter(|s| s.cost <= ctx.pick(1_200, 3_000)).collect();
    let pieces = ctx.pick(3, 4);
    let np = small.len() * small.len();
    ctx.par(np, |q| {
        if ctx.out_of_time() {
            return;
        }
        let (a, b) = (small[q / small.len()], small[q % small.len()]);
        ctx.case(&format!("merge/{}/{}", a.name, b.name), || {
            let mut st = 0u64;
            let mut n = 0u64;
            let len = 2 * pieces;
            for m in 0u32..1 << len {
                if m.count_ones() as usize != pieces {
                    continue;
                }
                let mut x = Stepper::new(&a.data, &opts, a.n().div_ceil(pieces), m & 1 == 1);
                let mut y = Stepper::new(&b.data, &opts, b.n().div_ceil(pieces), m & 2 == 2);
                // The merge word is repeated until both are finished.
                let mut i = 0;
                while !(x.done() && y.done()) {
                    let w = if m >> (i % len) & 1 == 1 { &mut x } else { &mut y };
                    if !w.done() {
                        w.step();
                        st += 1;
                    }
                    i += 1;
                }
                n += 1;
                if let Some(d) = x.same_as(&a.full).or(y.same_as(&b.full)) {
                    return Err(format!("{} with {} interleaved as {m:b}: {d}", a.name, b.name));
                }
            }
            Ok(Obs::batch(hash(&(q, a.full.digest(), b.full.digest())), st, n))
        });
    });
    // A third decoder dropped at every step, or failing, in between.
    ctx.par(small.len() * small.len(), |q| {
        if ctx.out_of_time() {
            return;
        }
        let (a, b) = (small[q / small.len()], small[q % small.len()]);
        ctx.case(&format!("drop/{}/{}", a.name, b.name), || {
            let mut st = 0;
            let mut n = 0;
            for k in 0..12 {
                let mut z = Stepper::new(&b.data, &opts, b.n().div_ceil(4), false);
                let mut x = Stepper::new(&a.data, &opts, a.n().div_ceil(3), true);
                let mut bad = b.data.clone();
                let bp = (bad.len() * (k + 1) / 13).min(bad.len() - 1);
                bad[bp] ^= 0xff;
                let mut i = 0;
                while !x.done() {
                    if i < k && !z.done() {
                        z.step();
                    } else if i == k {
                        z = Stepper::new(&bad, &opts, bad.len(), false);
                    } else if !z.done() && matches!(z.d, Dec::Init(_) | Dec::Img(_) | Dec::Frm(_)) && z.sc.data.len() == bad.len() {
                        // the failing decode runs to its end between two calls of x, bounded
                        for _ in 0..40 {
                            if !z.done() {
                                z.step();
                            }
                        }
                    }
                    x.step();
                    st += 2;
                    i += 1;
                }
                drop(z);
                n += 1;
                if let Some(d) = x.same_as(&a.full) {
                    return Err(format!("{} while {} was dropped or failing (k={k}): {d}", a.name, b.name));
                }
            }
            Ok(Obs::batch(hash(&(q, a.full.digest(), 7)), st, n))
        });
    });
    // Moving the decoder to another thread for every call.
    ctx.par(small.len(), |q| {
        let a = small[q];
        ctx.case(&format!("move/{}", a.name), || {
            let mut x = Stepper::new(&a.data, &opts, a.n().div_ceil(7), true);
            let mut st = 0;
            while !x.done() {
                std::thread::scope(|s| {
                    let r = &mut x;
                    let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || r.step()).unwrap();
                    if let Err(e) = h.join() {
                        std::panic::resume_unwind(e)
                    }
                });
                st += 1;
            }
            match x.same_as(&a.full) {
                Some(d) => Err(format!("{} moved between threads: {d}", a.name)),
                None => Ok(Obs::new(hash(&(q, 3, a.full.digest())), st)),
            }
        });
    });
}
