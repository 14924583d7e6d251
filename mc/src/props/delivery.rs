//! C01 delivery independence, C07 flush, C08 prefixes: exhaustive enumeration of delivery histories.
use crate::dec::*;
use crate::engine::*;
use crate::seeds::{self, Seed};
use std::io::{BufReader, Cursor};

fn check_whole(s: &Seed, o: &Outcome, visible: usize) -> CaseResult {
    if let Some(d) = s.full.diff(o) {
        return Err(format!("{}: whole vs delivered in pieces: {d}", s.name));
    }
    if let (End::Done, Some(l)) = (&o.end, o.file_length) {
        if l > visible as u64 {
            return Err(format!("reported complete with {visible} bytes delivered, file length {l}"));
        }
    }
    Ok(Obs::new(hash(&(o.digest(), o.steps)), o.steps))
}

fn deliver(s: &Seed, opts: &Opts, cuts: &[usize], tweak: impl Fn(&mut Script)) -> CaseResult {
    let mut sc = Script::new(&s.data, 0);
    tweak(&mut sc);
    let mut zero = false;
    let o = {
        let mut f = |h: usize, _rem: usize| zero |= h == 0;
        let mut p = Plan::new(opts);
        p.on_need = Some(&mut f);
        run(&mut p, &mut sc, cuts)
    };
    if zero {
        return Err(format!("{}: asked for 0 more bytes", s.name));
    }
    check_whole(s, &o, sc.visible)
}

pub fn c01(ctx: &Ctx) {
    ctx.set_rule("for every seed file: the decode under every enumerated delivery history (all single cuts, all uniform chunk sizes up to the bound, all pairs of cuts and all 2^w cut subsets of a sliding window for small files, every single short read, all combinations of read size x availability estimate x skip behaviour, the library's own slice / BufReader / default-skip inputs) equals the one-shot decode, frame bytes included; distinct = (outcome digest, number of calls)");
    let opts = Opts::default();
    let ss = seeds::all(ctx, ctx.pick(6_000, 40_000), ctx.pick(20_000, 200_000), &opts);
    let budget: u64 = ctx.pick(4_000_000, 60_000_000); // microseconds of decoding per seed and enumeration
    struct Job<'a> {
        s: &'a Seed,
        kind: u8,
        a: usize,
    }
    let mut jobs = vec![];
    for s in &ss {
        let n = s.n();
        let fits = |k: usize| k as u64 * (s.cost) <= budget;
        if fits(n) {
            for c in 0..n {
                jobs.push(Job { s, kind: 0, a: c });
            }
        } else {
            ctx.note(format!("{}: single cuts not enumerated (cost)", s.name));
        }
        for k in 1..=n.min(ctx.pick(24, 80)) {
            if fits(24) {
                jobs.push(Job { s, kind: 1, a: k });
            }
        }
        if fits(n * n / 2) {
            for c in 1..n {
                jobs.push(Job { s, kind: 2, a: c });
            }
        }
        let w = ctx.pick(6, 10);
        if fits(n << w) {
            for c in 0..n {
                jobs.push(Job { s, kind: 3, a: c });
            }
        }
        for a in 0..4 * 3 * 4 * 3 {
            if fits(144) {
                jobs.push(Job { s, kind: 4, a });
            }
        }
        if fits(n) {
            for a in 0..n.min(600) {
                jobs.push(Job { s, kind: 5, a });
            }
            for c in 0..=n {
                jobs.push(Job { s, kind: 6, a: c });
            }
        }
    }
    ctx.par(jobs.len(), |i| {
        let Job { s, kind, a } = jobs[i];
        if ctx.out_of_time() {
            return;
        }
        let n = s.n();
        match kind {
            0 => ctx.case(&format!("cut1/{}/{a}", s.name), || deliver(s, &opts, &[a, n], |_| {})),
            1 => ctx.case(&format!("chunk/{}/{a}", s.name), || {
                let cuts: Vec<usize> = (1..=n.div_ceil(a)).map(|i| (i * a).min(n)).collect();
                deliver(s, &opts, &cuts, |_| {})
            }),
            2 => ctx.case(&format!("cut2/{}/{a}", s.name), || {
                let mut d = 0u64;
                let mut st = 0;
                let mut k = 0;
                for b in a + 1..n {
                    let o = deliver(s, &opts, &[a, b, n], |_| {}).map_err(|e| format!("cuts {a},{b}: {e}"))?;
                    d ^= o.digest;
                    st += o.steps;
                    k += 1;
                }
                Ok(Obs::batch(d, st, k))
            }),
            3 => {
                let w = ctx.pick(6, 10).min(n - a);
                ctx.case(&format!("window/{}/{a}", s.name), || {
                    let mut d = 0u64;
                    let mut st = 0;
                    // All subsets of the cut positions a..a+w that contain a (others are in a later window).
                    for m in 0..1usize << (w - 1) {
                        let mut cuts = vec![a];
                        cuts.extend((1..w).filter(|j| m >> (j - 1) & 1 == 1).map(|j| a + j));
                        cuts.push(n);
                        let o = deliver(s, &opts, &cuts, |_| {}).map_err(|e| format!("cuts {cuts:?}: {e}"))?;
                        d = d.wrapping_mul(31) ^ o.digest;
                        st += o.steps;
                    }
                    Ok(Obs::batch(d, st, 1 << (w - 1)))
                })
            }
            4 => {
                let av = [Avail::Exact, Avail::One, Avail::Huge, Avail::Half][a % 4];
                let sk = [SkipMode::Native, SkipMode::OneByte, SkipMode::ViaTraitDefault][a / 4 % 3];
                let mr = [usize::MAX, 1, 3, 64][a / 12 % 4];
                let ch = [n, 1, 7][a / 48];
                ctx.case(&format!("input/{}/avail={av:?} skip={sk:?} read={mr} chunk={ch}", s.name), || {
                    let cuts: Vec<usize> = (1..=n.div_ceil(ch)).map(|i| (i * ch).min(n)).collect();
                    deliver(s, &opts, &cuts, |x| {
                        x.avail = av;
                        x.skip = sk;
                        x.max_read = mr;
                    })
                })
            }
            5 => ctx.case(&format!("short/{}/{a}", s.name), || {
                deliver(s, &opts, &[n], |x| {
                    x.short_at = a;
                    x.max_read = 1;
                })
            }),
            _ => ctx.case(&format!("prefix/{}/{a}", s.name), || {
                // The library's own input types see the same (truncated) bytes the same way.
                let d = &s.data[..a];
                let mut dg = 0;
                let mut st = 0;
                let scan = Opts { scan_only: true, ..opts.clone() };
                for (m, opts) in [&opts, &scan].into_iter().enumerate() {
                    let r = oneshot(d, opts, FmtSel::F32All);
                    st += r.steps;
                    dg = hash(&(dg, r.digest()));
                    for (k, cap) in [(0, 0), (1, 1), (1, 16), (1, 8192)] {
                        let o = if k == 0 {
                            whole_with(opts, &mut &d[..])
                        } else {
                            whole_with(opts, &mut BufReader::with_capacity(cap, Cursor::new(d)))
                        };
                        st += o.steps;
                        if let Some(x) = r.diff(&o) {
                            return Err(format!("{} first {a} bytes, scan={m} input kind {k} capacity {cap}: {x}", s.name));
                        }
                    }
                    let mut sc = Script::new(d, a);
                    sc.skip = SkipMode::ViaTraitDefault;
                    let o = run(&mut Plan::new(opts), &mut sc, &[a]);
                    if let Some(x) = r.diff(&o) {
                        return Err(format!("{} first {a} bytes, scan={m} default skip: {x}", s.name));
                    }
                    st += o.steps;
                }
                Ok(Obs::batch(hash(&(dg, a)), st, 12))
            }),
        }
    });
}

/// Number of requests for more input, and those inside frames, of a delivery.
fn needs(s: &Seed, opts: &Opts, cuts: &[usize]) -> usize {
    let mut n = 0;
    {
        let mut f = |_: usize, _: usize| n += 1;
        let mut p = Plan::new(opts);
        p.on_need = Some(&mut f);
        let mut sc = Script::new(&s.data, 0);
        run(&mut p, &mut sc, cuts);
    }
    n
}

fn flushed(s: &Seed, opts: &Opts, cuts: &[usize], set: &dyn Fn(usize) -> bool, fill: u8, pad: usize) -> CaseResult {
    let mut bad = None;
    let mut drawn = 0u64;
    let o = {
        let mut f = |fi: usize, v: bool, a: &[Vec<u8>], b: &[Vec<u8>]| {
            if v {
                drawn = drawn.wrapping_mul(31) ^ hash(b)
            } else if a != b {
                bad = Some(format!("flush of frame {fi} returned false but changed the buffers"))
            }
        };
        let mut p = Plan::new(opts);
        p.flush = set;
        p.fill = fill;
        p.pad = pad;
        p.on_flush = Some(&mut f);
        let mut sc = Script::new(&s.data, 0);
        run(&mut p, &mut sc, cuts)
    };
    if let Some(b) = bad {
        return Err(format!("{}: {b}", s.name));
    }
    let mut o2 = o.clone();
    if pad > 0 {
        for f in &mut o2.frames {
            for b in &mut f.bufs {
                if b.is_empty() {
                    continue;
                }
                let stride = b.len() / f.size.1;
                let mut c = vec![];
                for r in b.chunks(stride) {
                    c.extend_from_slice(&r[..stride - pad]);
                    if r[stride - pad..].iter().any(|x| *x != fill) {
                        return Err(format!("{}: bytes outside the rows were written", s.name));
                    }
                }
                *b = c;
            }
        }
    }
    if let Some(d) = s.full.diff(&o2) {
        return Err(format!("{}: without vs with flushes: {d}", s.name));
    }
    Ok(Obs::new(hash(&(o.digest(), drawn)), o.steps))
}

pub fn c07(ctx: &Ctx) {
    ctx.set_rule("for every seed file and chunk size: all subsets of the flush opportunities when there are few, otherwise every single one, every adjacent pair, every prefix set and all; two buffer fill patterns and row paddings; the final pixels, info and errors must equal the decode without flush, and a flush returning false must not change the buffers; distinct = (outcome, sequence of flushed pictures)");
    let opts = Opts::default();
    let ss = seeds::all(ctx, ctx.pick(6_000, 40_000), ctx.pick(15_000, 100_000), &opts);
    let budget: u64 = ctx.pick(3_000_000, 40_000_000);
    let mut jobs: Vec<(&Seed, usize, usize, usize)> = vec![]; // seed, chunk, kind, arg
    let plans: std::sync::Mutex<Vec<(usize, usize, usize)>> = Default::default();
    ctx.par(ss.len(), |i| {
        let s = &ss[i];
        let n = s.n();
        let mut ks = vec![1, 2, 3, 5, 11, 31, 123, 500];
        for d in 2..=9 {
            ks.push(n.div_ceil(d));
        }
        ks.sort();
        ks.dedup();
        for k in ks {
            if k >= n || (n / k) as u64 * s.cost > budget {
                continue;
            }
            let cuts: Vec<usize> = (1..=n.div_ceil(k)).map(|i| (i * k).min(n)).collect();
            let m = needs(s, &opts, &cuts);
            plans.lock().unwrap().push((i, k, m));
        }
    });
    let mut pl = plans.into_inner().unwrap();
    pl.sort();
    for &(i, k, m) in &pl {
        let s = &ss[i];
        let per = s.cost + (s.n() / k) as u64 * 10;
        if m <= ctx.pick(6, 10) && (per << m) <= budget {
            for b in 0..1usize << m {
                jobs.push((s, k, 0, b));
            }
        } else {
            jobs.push((s, k, 4, 0));
            jobs.push((s, k, 5, 0));
            jobs.push((s, k, 6, 0));
            if (m as u64) * per * 3 <= budget {
                for b in 0..m {
                    jobs.push((s, k, 1, b));
                    jobs.push((s, k, 2, b));
                    jobs.push((s, k, 3, b));
                }
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        if ctx.out_of_time() {
            return;
        }
        let (s, k, kind, b) = jobs[j];
        let n = s.n();
        let cuts: Vec<usize> = (1..=n.div_ceil(k)).map(|i| (i * k).min(n)).collect();
        let name = ["subset", "single", "adjacent", "upto", "all", "allfill", "allpad"][kind];
        ctx.case(&format!("{name}/{}/chunk={k}/{b}", s.name), || {
            let (fill, pad) = match kind {
                5 => (0xA5, 0),
                6 => (0x5A, 12),
                0 if b % 3 == 1 => (0xFF, 0),
                _ => (0, 0),
            };
            flushed(
                s,
                &opts,
                &cuts,
                &|i| match kind {
                    0 => b >> i & 1 == 1,
                    1 => i == b,
                    2 => i == b || i == b + 1,
                    3 => i <= b,
                    _ => true,
                },
                fill,
                pad,
            )
        })
    });
}

pub fn c08(ctx: &Ctx) {
    ctx.set_rule("for every valid seed file and every prefix length: decoding the prefix ends in a request for more input of at least 1 and at most the missing number of bytes, everything reported so far equals the full decode, and resuming with the rest (whole, or byte by byte) completes with the full result; also in scan-only mode; distinct = (prefix outcome)");
    let opts = Opts::default();
    let scan = Opts { scan_only: true, ..Opts::default() };
    let ss = seeds::valid(ctx, ctx.pick(10_000, 70_000), ctx.pick(20_000, 200_000), &opts);
    let budget: u64 = ctx.pick(10_000_000, 150_000_000);
    let scans: Vec<Outcome> = ss.iter().map(|s| oneshot(&s.data, &scan, FmtSel::F32All)).collect();
    let mut jobs = vec![];
    for (si, s) in ss.iter().enumerate() {
        let Some(l) = s.full.file_length else {
            ctx.violation(&format!("length/{}", s.name), "no file length after a complete decode");
            continue;
        };
        if l as usize > s.n() {
            ctx.violation(&format!("length/{}", s.name), &format!("file length {l} of a {} byte file", s.n()));
            continue;
        }
        let per = s.cost * 2;
        if s.n() as u64 * per <= budget {
            for c in 0..=s.n() {
                jobs.push((si, c, 0));
            }
        } else {
            ctx.note(format!("{}: pixel decode prefixes not enumerated (cost)", s.name));
        }
        if s.n() <= ctx.pick(10_000, 70_000) {
            for c in 0..=s.n() {
                jobs.push((si, c, 1));
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        if ctx.out_of_time() {
            return;
        }
        let (si, c, mode) = jobs[j];
        let s = &ss[si];
        let l = s.full.file_length.unwrap() as usize;
        let (o, full) = if mode == 0 { (&opts, &s.full) } else { (&scan, &scans[si]) };
        ctx.case(&format!("{}/{}/{c}", ["prefix", "scanprefix"][mode], s.name), || {
            let mut sc = Script::new(&s.data, c);
            let mut hints = vec![];
            let (p, r) = {
                let mut f = |h: usize, rem: usize| hints.push((h, rem));
                let mut plan = Plan::new(o);
                plan.on_need = Some(&mut f);
                let (p, d) = run_from(Dec::Init(jxl::api::JxlDecoder::new(o.to_jxl())), &mut plan, &mut sc, &[]);
                (p, d)
            };
            match &p.end {
                End::Error(e) => return Err(format!("a prefix of a valid file is an error: {e}")),
                End::Done if c < l => return Err(format!("complete after {c} of {l} bytes")),
                End::NeedMore(_) if c >= l => return Err(format!("still asks for more after all {l} bytes: {:?}", p.end)),
                End::NeedMore(h) => {
                    // With parts out of order, bytes that are already here count as asked for.
                    if *h == 0 || (*h > l - c && !s.out_of_order()) {
                        return Err(format!("asks for {h} bytes, {} are missing", l - c));
                    }
                }
                _ => {}
            }
            if p.info.is_some() && p.info != full.info {
                return Err("image information differs from the full decode".into());
            }
            for (i, f) in p.frames.iter().enumerate() {
                let Some(g) = full.frames.get(i) else {
                    return Err("more frames than in the full decode".into());
                };
                if let Some(d) = frame_diff(f, g) {
                    return Err(format!("frame {i} of the prefix: {d}"));
                }
            }
            if !full.scanned.starts_with(&p.scanned) {
                return Err(format!("scanned frames {:?} are not a prefix of {:?}", p.scanned, full.scanned));
            }
            // Resume.
            let mut st = p.steps;
            if c < l {
                let cuts: Vec<usize> = if c % 2 == 0 || s.n() > 600 { vec![s.n()] } else { (c + 1..=s.n()).collect() };
                let fresh = p.info.is_none();
                let before = p.frames.len();
                let mut plan = Plan::new(o);
                // Resuming inside a frame: run_from starts a new frame list, so replay from scratch
                // with the same history instead of stitching.
                let _ = (fresh, before, r);
                let mut sc = Script::new(&s.data, c);
                let q = run(&mut plan, &mut sc, &cuts);
                st += q.steps;
                if let Some(d) = full.diff(&q) {
                    return Err(format!("resumed after {c} bytes: {d}"));
                }
            }
            Ok(Obs::new(hash(&(p.digest(), hash(&hints.last()))), st))
        })
    });
}
