//! C02: the container. Sequences of boxes are enumerated; a reference parser written from the format's description
//! reassembles the codestream, and the decoder has to do with the container what it does with that bare codestream.
use crate::dec::*;
use crate::engine::*;
use crate::genfiles;
use crate::{corpus, enc::frame::SIG};
use std::collections::HashMap;
use std::sync::Mutex;

/// What the format says about a file of boxes.
#[derive(Debug, Clone)]
struct Parsed {
    /// Codestream bytes that can be reassembled.
    cs: Vec<u8>,
    /// For each run of codestream bytes: (bytes of codestream before it, file position of its first byte, buffered:
    /// the bytes became available all at once at that position).
    runs: Vec<(usize, usize, bool)>,
    /// For each run: the part arrived in order and no later part had arrived before it.
    plain: Vec<bool>,
    illegal: bool,
    /// No box can follow.
    open: bool,
    /// The last codestream box was seen.
    ended: bool,
}
impl Parsed {
    /// Length of the shortest start of the file from which `n` codestream bytes can be reassembled.
    fn file_pos(&self, n: usize) -> usize {
        let r = self.runs.iter().rev().find(|r| r.0 < n.max(1)).or(self.runs.first()).unwrap();
        if r.2 { r.1 } else { r.1 + (n - r.0) }
    }
    /// Whether a frame may begin at codestream byte `n`: frames have to begin in parts that arrived in order.
    fn frame_ok(&self, n: usize) -> bool {
        let last = self.runs.iter().rposition(|r| r.0 < n.max(1)).unwrap_or(0);
        self.plain[last] && self.runs.iter().zip(&self.plain).all(|(r, p)| r.0 != n || *p)
    }
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
/// The reference parser: boxes of a file after its signature, in order.
fn parse(file: &[u8]) -> Parsed {
    let mut p = Parsed { cs: vec![], runs: vec![], plain: vec![], illegal: false, open: false, ended: false };
    if file.get(..12) != Some(&SIG[..12]) {
        p.illegal = true;
        return p;
    }
    let mut pos = 12;
    let mut version = None;
    let mut whole = false;
    let mut next = 0u64; // next part
    let mut parts = false;
    let mut buffered: HashMap<u64, (Vec<u8>, bool)> = HashMap::new();
    while pos < file.len() {
        let rest = &file[pos..];
        if rest.len() < 8 {
            return p;
        }
        let ty = &rest[4..8];
        if version.is_none() && ty != b"ftyp" {
            p.illegal = true;
            return p;
        }
        let (mut len, mut head) = (be(&rest[..4]), 8);
        if len == 1 {
            if rest.len() < 16 {
                return p;
            }
            (len, head) = (be(&rest[8..16]), 16);
        }
        let to_end = len == 0;
        let size = if to_end { rest.len() as u64 } else { len };
        let fixed = match ty {
            b"ftyp" => 8,
            b"jxlp" => 4,
            _ => 0,
        };
        if !to_end && size < head as u64 + fixed {
            // (the decoder may wait for the whole header before it notices)
            p.illegal = true;
            return p;
        }
        if rest.len() < head + fixed as usize {
            return p;
        }
        let body = &rest[head..(size as usize).min(rest.len())];
        let at = pos + head;
        let take = |p: &mut Parsed, b: &[u8], at: usize, buffered: bool, early: usize| {
            p.runs.push((p.cs.len(), at, buffered));
            p.plain.push(!buffered && early == 0);
            p.cs.extend_from_slice(b);
        };
        match ty {
            b"ftyp" => {
                if version.is_some() || &body[..4] != b"jxl " || be(&body[4..8]) > 1 {
                    p.illegal = true;
                    return p;
                }
                version = Some(be(&body[4..8]));
            }
            b"jxlc" => {
                if parts || whole || !buffered.is_empty() {
                    p.illegal = true;
                    return p;
                }
                whole = true;
                take(&mut p, body, at, false, 0);
                p.ended = true;
            }
            b"jxlp" => {
                let (last, i) = (body[0] & 0x80 != 0, be(&body[..4]) & 0x7fff_ffff);
                let body = &body[4..];
                if whole || p.ended || i < next || (i > next && (version != Some(1) || to_end || buffered.contains_key(&i))) {
                    p.illegal = true;
                    return p;
                }
                parts |= i == next;
                if i > next {
                    // A part that has not arrived completely contributes nothing yet.
                    if (size as usize) <= rest.len() {
                        buffered.insert(i, (body.to_vec(), last));
                    }
                } else {
                    take(&mut p, body, at + 4, false, buffered.len());
                    next += 1;
                    p.ended = last;
                    if (size as usize) <= rest.len() && !to_end {
                        let end = pos + size as usize;
                        while !p.ended && let Some((b, last)) = buffered.remove(&next) {
                            take(&mut p, &b, end, true, buffered.len());
                            next += 1;
                            p.ended = last;
                        }
                    }
                }
            }
            _ => {}
        }
        if to_end {
            p.open = true;
            return p;
        }
        pos = pos.saturating_add(size as usize);
    }
    p
}

struct Oracle {
    starts: Vec<usize>,
    opts: Opts,
    memo: Mutex<HashMap<(u64, bool), Outcome>>,
}
impl Oracle {
    fn bare(&self, cs: &[u8], skip: bool) -> Outcome {
        let k = (hash_bytes(cs), skip);
        if let Some(o) = self.memo.lock().unwrap().get(&k) {
            return o.clone();
        }
        let o = self.play(cs, skip, cs.len().max(1));
        self.memo.lock().unwrap().insert(k, o.clone());
        o
    }
    fn play(&self, data: &[u8], skip: bool, chunk: usize) -> Outcome {
        let mut cuts: Vec<usize> = (1..data.len() / chunk + 1).map(|i| i * chunk).collect();
        if cuts.last() != Some(&data.len()) {
            cuts.push(data.len());
        }
        self.play_cuts(data, skip, &cuts)
    }
    fn play_cuts(&self, data: &[u8], skip: bool, cuts: &[usize]) -> Outcome {
        let mut s = Script::new(data, 0);
        let mut plan = Plan::new(&self.opts);
        plan.skip = if skip { &|_| true } else { &never };
        run(&mut plan, &mut s, cuts)
    }
    /// Judges the decoder on one file; returns the digest of what it did.
    fn judge(&self, file: &[u8], skip: bool, chunk: usize) -> Result<(u64, u64), String> {
        self.judge_outcome(file, skip, chunk, self.play(file, skip, chunk))
    }
    fn judge_outcome(&self, file: &[u8], skip: bool, chunk: usize, got: Outcome) -> Result<(u64, u64), String> {
        let p = parse(file);
        let bad = |m: String| Err(format!("{m}\n  file {:02x?}", &file[..file.len().min(400)]));
        let want = self.bare(&p.cs, skip);
        let same_frames = |n: usize| {
            for (i, (a, b)) in got.frames.iter().zip(&want.frames).enumerate().take(n) {
                if let Some(d) = frame_diff(a, b) {
                    return Some(format!("frame {i}: {d}"));
                }
            }
            None
        };
        if p.illegal && !(want.end == End::Done && got.end == End::Done) {
            // Refused or waiting, with nothing wrong shown before.
            if got.end == End::Done {
                return bad(format!("a container that breaks the rules was decoded to the end (its codestream alone ends {:?})", want.end));
            }
            if got.frames.len() > want.frames.len() || (got.info.is_some() && want.info.is_some() && got.info != want.info) {
                return bad("more was shown than the codestream of the container holds".into());
            }
            if got.end.class() == "more" && chunk >= file.len() && !p.ended && want.end.class() == "more" && !waits_ok(file) {
                return bad(format!("the decoder waits for more input behind a broken box: {:?}", got.end));
            }
            if let Some(d) = same_frames(got.frames.len()) {
                return bad(d);
            }
            return Ok((got.digest(), got.steps));
        }
        let buffered = p.runs.iter().any(|r| r.2) || p.plain.iter().any(|x| !*x);
        if buffered && matches!(&got.end, End::Error(e) if e.contains("InvalidBox") || e.contains("nvalid box")) && !self.starts.iter().all(|s| p.frame_ok(*s)) {
            if got.frames.len() > want.frames.len() || got.frames.iter().zip(&want.frames).any(|(a, b)| frame_diff(a, b).is_some()) {
                return bad("wrong frames before the file was refused".into());
            }
            return Ok((got.digest(), got.steps));
        }
        let mut cmp = got.clone();
        cmp.file_length = want.file_length;
        map_scanned(&mut cmp, &want, &p)?;
        if let Some(d) = cmp.diff(&want) {
            return bad(format!("container vs its bare codestream: {d}"));
        }
        match (got.file_length, want.file_length) {
            (Some(a), Some(b)) => {
                if a != p.file_pos(b as usize) as u64 {
                    return bad(format!("file length {a}, the codestream is complete at {}", p.file_pos(b as usize)));
                }
            }
            (None, None) => {}
            (a, b) => return bad(format!("file length {a:?} vs {b:?}")),
        }
        Ok((got.digest(), got.steps))
    }
}
/// Replaces file positions of scanned frames by the bare codestream's if they denote the same place.
fn map_scanned(o: &mut Outcome, want: &Outcome, p: &Parsed) -> Result<(), String> {
    let split = |s: &str| -> (String, Vec<usize>) {
        let (a, b) = s.split_once('@').unwrap();
        let (n, c) = b.split_once(' ').unwrap();
        let (d, e) = c.split_once("start=").unwrap();
        let (m, g) = e.split_once(' ').unwrap();
        (format!("{a}@ {d}start= {g}"), vec![n.parse().unwrap(), m.parse().unwrap()])
    };
    for (a, b) in o.scanned.iter_mut().zip(&want.scanned) {
        let ((x, u), (y, v)) = (split(a), split(b));
        let same = u.iter().zip(&v).all(|(u, v)| *u == p.file_pos(*v) || *u == p.file_pos(*v + 1) - 1);
        if x == y && same {
            *a = b.clone();
        }
    }
    Ok(())
}
/// A broken box is only noticed when its whole header is there.
fn waits_ok(file: &[u8]) -> bool {
    file.len() < 12 + 24
}

/// Codestreams and where their frames begin.
fn codestreams() -> Vec<(&'static str, Vec<u8>, Vec<usize>)> {
    let starts = || genfiles::STARTS.with(|s| s.borrow().clone());
    let a = genfiles::chain();
    let sa = starts();
    let b = genfiles::slots();
    let sb = starts();
    vec![("3x3_srgb_lossless", corpus::get("3x3_srgb_lossless").unwrap().data, vec![10]), ("chain", a, sa), ("slots", b, sb)]
}
fn bx(ty: &[u8; 4], body: &[u8], mode: u8) -> Vec<u8> {
    let mut v = match mode {
        0 => ((body.len() + 8) as u32).to_be_bytes().to_vec(),
        1 => vec![0, 0, 0, 1],
        _ => vec![0; 4],
    };
    v.extend_from_slice(ty);
    if mode == 1 {
        v.extend(((body.len() + 16) as u64).to_be_bytes());
    }
    v.extend_from_slice(body);
    v
}
fn part(i: u32, last: bool, body: &[u8], mode: u8) -> Vec<u8> {
    let mut b = (i | (last as u32) << 31).to_be_bytes().to_vec();
    b.extend_from_slice(body);
    bx(b"jxlp", &b, mode)
}
fn ftyp(version: u32) -> Vec<u8> {
    let mut b = b"jxl ".to_vec();
    b.extend(version.to_be_bytes());
    b.extend(b"jxl ");
    bx(b"ftyp", &b, 0)
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r.sort();
    r
}
fn others() -> Vec<Vec<u8>> {
    vec![
        bx(b"Exif", &[], 0),
        bx(b"xml ", b"12345", 0),
        bx(b"jbrd", b"abc", 1),
        bx(b"JXLC", &part(0, true, &[0xff, 0x0a], 0), 0),
        bx(b"jxll", &[10; 200], 0),
    ]
}

/// Legal containers: parts x cuts x orders x size encodings x unrelated boxes.
fn legal(ctx: &Ctx, name: &str, cs: &[u8], o: &Oracle, skip: bool, kmax: usize) {
    let l = cs.len();
    let cutset = [0, 1, 2, l / 2, l - 1, l];
    let mut jobs = vec![];
    for k in 1..=kmax {
        let mut cuts = vec![0usize; k - 1];
        loop {
            jobs.push(cuts.clone());
            let mut i = k - 1;
            while i > 0 && cuts[i - 1] == cutset.len() - 1 {
                i -= 1;
            }
            if i == 0 {
                break;
            }
            let v = cuts[i - 1] + 1;
            cuts[i - 1..].fill(v);
        }
    }
    ctx.par(jobs.len(), |j| {
        if ctx.out_of_time() {
            return;
        }
        let c: Vec<usize> = std::iter::once(0).chain(jobs[j].iter().map(|i| cutset[*i])).chain([l]).collect();
        let k = c.len() - 1;
        for (pi, p) in perms(k).into_iter().enumerate() {
            ctx.case(&format!("legal/{name}{}/{:?}/{pi}", if skip { "/skip" } else { "" }, &c[1..k]), || {
                let (mut h, mut st, mut n) = (0, 0, 0);
                let ooo = pi != 0;
                for mode in 0..4u8 {
                    for (u, other) in std::iter::once(vec![]).chain(others()).enumerate() {
                        for gap in 0..if u == 0 { 1 } else { k + 1 } {
                            let mut f = SIG[..12].to_vec();
                            f.extend(ftyp(ooo as u32));
                            for (q, &i) in p.iter().enumerate() {
                                if gap == q {
                                    f.extend(&other);
                                }
                                let m = match mode {
                                    3 => (q % 2) as u8,
                                    2 if q == k - 1 && !(gap == k && u > 0) => 2,
                                    2 => 0,
                                    m => m,
                                };
                                f.extend(part(i as u32, i == k - 1, &cs[c[i]..c[i + 1]], m));
                            }
                            if gap == k {
                                f.extend(&other);
                            }
                            // The two ways of delivery that differ most: all at once, and in odd pieces.
                            let chunk = if (u + gap + pi) % 3 == 0 { 5 } else { f.len() };
                            let (a, b) = o.judge(&f, skip, chunk)?;
                            h = hash(&(h, a));
                            st += b;
                            n += 1;
                        }
                    }
                }
                Ok(Obs::batch(h, st, n))
            });
        }
    });
}

struct Sym {
    name: &'static str,
    bytes: Vec<u8>,
}
fn alphabet(cs: &[u8]) -> Vec<Sym> {
    let l = cs.len();
    let (a, b) = (l / 3, 2 * l / 3);
    let v: Vec<(&'static str, Vec<u8>)> = vec![
        ("0a", part(0, false, &cs[..a], 0)),
        ("0w", part(0, false, cs, 0)),
        ("0wL", part(0, true, cs, 1)),
        ("0aL", part(0, true, &cs[..a], 0)),
        ("0e", part(0, false, &[], 0)),
        ("1b", part(1, false, &cs[a..b], 0)),
        ("1w", part(1, true, cs, 0)),
        ("1e", part(1, false, &[], 1)),
        ("1bcL", part(1, true, &cs[a..], 0)),
        ("1z", part(1, true, &cs[a..], 2)),
        ("2c", part(2, false, &cs[b..], 0)),
        ("2cL", part(2, true, &cs[b..], 1)),
        ("2bcL", part(2, true, &cs[a..], 0)),
        ("3eL", part(3, true, &[], 0)),
        ("C", bx(b"jxlc", cs, 0)),
        ("Ca", bx(b"jxlc", &cs[..a], 0)),
        ("Cz", bx(b"jxlc", cs, 2)),
        ("C+", bx(b"jxlc", &[cs, &[0, 1, 2]].concat(), 0)),
        ("x", bx(b"Exif", &[1, 2, 3], 0)),
        ("y", bx(b"brob", &[], 1)),
        ("z", bx(b"free", &[], 2)),
        ("F", ftyp(0)),
        ("s", vec![0, 0, 0, 4, b'a', b'b', b'c', b'd']),
        ("t", vec![0, 0, 0, 11, b'j', b'x', b'l', b'p', 0, 0, 0, 0]),
        ("u", vec![0, 0, 0, 1, b'j', b'x', b'l', b'c', 0, 0, 0, 0, 0, 0, 0, 15]),
    ];
    v.into_iter().map(|(name, bytes)| Sym { name, bytes }).collect()
}
/// All sequences of boxes over the alphabet up to a depth; a sequence that is decided is extended once more.
fn sequences(ctx: &Ctx, name: &str, cs: &[u8], o: &Oracle, version: u32, depth: usize) {
    let al = alphabet(cs);
    let mut head = SIG[..12].to_vec();
    head.extend(ftyp(version));
    let n = al.len();
    ctx.par(n * n, |j| {
        let (i0, i1) = (j / n, j % n);
        if i1 == 0 {
            let f = [&head[..], &al[i0].bytes].concat();
            ctx.case(&format!("seq/{name}/v{version}{}/{}", if o.opts.scan_only { "scan" } else { "" }, al[i0].name), || o.judge(&f, false, f.len()).map(|(d, s)| Obs::new(d, s)));
        }
        if ctx.out_of_time() {
            return;
        }
        ctx.case(&format!("seq/{name}/v{version}{}/{} {}", if o.opts.scan_only { "scan" } else { "" }, al[i0].name, al[i1].name), || {
            let (mut h, mut st, mut cnt) = (0u64, 0, 0);
            let mut path = vec![i0, i1];
            fn go(al: &[Sym], f: &[u8], path: &mut Vec<usize>, left: usize, decided: bool, o: &Oracle, acc: &mut (&mut u64, &mut u64, &mut u64)) -> Result<(), String> {
                let p = parse(f);
                for chunk in [f.len(), 1, 7] {
                    if chunk == 1 && path.len() > 4 || chunk == 7 && path.len() != 4 {
                        continue;
                    }
                    let names: Vec<_> = path.iter().map(|i| al[*i].name).collect();
                    let (a, b) = o.judge(f, false, chunk).map_err(|e| format!("boxes {} (chunk {chunk}): {e}", names.join(" ")))?;
                    *acc.0 = hash(&(*acc.0, a));
                    *acc.1 += b;
                    *acc.2 += 1;
                }
                let now = p.illegal || p.open || p.ended || o.bare(&p.cs, false).end.class() != "more";
                if left == 0 || decided {
                    return Ok(());
                }
                for i in 0..al.len() {
                    path.push(i);
                    go(al, &[f, &al[i].bytes].concat(), path, left - 1, now, o, acc)?;
                    path.pop();
                }
                Ok(())
            }
            let f0 = [&head[..], &al[i0].bytes].concat();
            let p0 = parse(&f0);
            let decided = p0.illegal || p0.open || p0.ended || o.bare(&p0.cs, false).end.class() != "more";
            let f = [&f0[..], &al[i1].bytes].concat();
            go(&al, &f, &mut path, depth - 2, decided, o, &mut (&mut h, &mut st, &mut cnt))?;
            Ok(Obs::batch(h, st, cnt))
        });
    });
}

/// Starts of files: signature and file-type box.
fn starts(ctx: &Ctx, cs: &[u8], o: &Oracle) {
    let tail = bx(b"jxlc", cs, 0);
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for len in 0..24usize {
        for mode in 0..2 {
            let full: Vec<u8> = [&b"jxl "[..], &[0, 0, 0, 0], b"jxl ", &[7; 40]].concat();
            v.push((format!("ftyp-size{len}-{mode}"), bx(b"ftyp", &full[..len], mode)));
        }
    }
    for i in 0..20 {
        for bit in 0..8 {
            let mut f = ftyp(0);
            f[i] ^= 1 << bit;
            v.push((format!("ftyp-bit{i}.{bit}"), f));
        }
    }
    v.push(("none".into(), vec![]));
    v.push(("late".into(), [bx(b"Exif", &[1], 0), ftyp(0)].concat()));
    v.push(("twice".into(), [ftyp(0), ftyp(0)].concat()));
    v.push(("twice-apart".into(), [ftyp(0), bx(b"Exif", &[1], 0), ftyp(0)].concat()));
    ctx.par(v.len(), |i| {
        for chunk in [1, 3, 100_000] {
            let f = [&SIG[..12], &v[i].1, &tail].concat();
            ctx.case(&format!("start/{}/{chunk}", v[i].0), || o.judge(&f, false, chunk.min(f.len())).map(|(d, s)| Obs::new(d, s)));
        }
    });
}

/// Every split of one legal and one out-of-order file in two pieces x every skip of a frame: positions inside headers.
fn splits(ctx: &Ctx, name: &str, cs: &[u8], o: &Oracle) {
    let l = cs.len();
    let mut files = vec![];
    for (k, order) in [vec![0usize, 1, 2], vec![0, 2, 1], vec![1, 2, 0], vec![1, 0, 2]].into_iter().enumerate() {
        let c = [0, l / 3, 2 * l / 3, l];
        let mut f = SIG[..12].to_vec();
        f.extend(ftyp((k > 0) as u32));
        for (q, &i) in order.iter().enumerate() {
            f.extend(&others()[(q + k) % 5]);
            f.extend(part(i as u32, i == 2, &cs[c[i]..c[i + 1]], (q % 2) as u8));
        }
        f.extend(&others()[3]);
        files.push(f);
    }
    for (k, f) in files.iter().enumerate() {
        ctx.par(f.len(), |i| {
            for skip in [false, true] {
                ctx.case(&format!("split/{name}/{k}/{i}{}", if skip { "/skip" } else { "" }), || {
                    let got = o.play_cuts(f, skip, &[i, f.len()]);
                    if k == 0 && got.end != End::Done {
                        return Err(format!("a legal container ends with {:?}", got.end));
                    }
                    o.judge_outcome(f, skip, f.len(), got).map(|(d, s)| Obs::new(d, s))
                });
            }
        });
    }
}

pub fn c02(ctx: &Ctx) {
    ctx.set_rule("state space: files made of boxes; every file built is parsed by a reference parser (box sizes, file type, one box or numbered parts, order of parts) and decoded by the real decoder; transitions are process() calls; non-vacuous: legal containers decode to the pictures of their bare codestream");
    ctx.assume("what follows a broken rule after the codestream is already complete may be noticed or not");
    let cs = codestreams();
    let os: Vec<[Oracle; 2]> = cs
        .iter()
        .map(|(_, _, starts)| {
            [false, true].map(|scan_only| Oracle { starts: starts.clone(), opts: Opts { scan_only, ..Opts::default() }, memo: Mutex::new(HashMap::new()) })
        })
        .collect();
    for (i, (n, ..)) in cs.iter().enumerate() {
        ctx.note(format!("{n}: {} bytes, frames begin at {:?}", cs[i].1.len(), os[i][0].starts));
    }
    starts(ctx, &cs[0].1, &os[0][0]);
    for (i, (n, c, _)) in cs.iter().enumerate() {
        splits(ctx, n, c, &os[i][0]);
    }
    for v in 0..3 {
        sequences(ctx, cs[0].0, &cs[0].1, &os[0][0], v, ctx.pick(5, 7));
        sequences(ctx, cs[1].0, &cs[1].1, &os[1][1], v, ctx.pick(4, 5));
        sequences(ctx, cs[1].0, &cs[1].1, &os[1][0], v, ctx.pick(4, 5));
    }
    for (i, (n, c, _)) in cs.iter().enumerate() {
        legal(ctx, n, c, &os[i][0], false, ctx.pick([4, 4, 3][i], 5));
        if i > 0 {
            legal(ctx, n, c, &os[i][0], true, ctx.pick(3, 4));
        }
        legal(ctx, &format!("{n}/scan"), c, &os[i][1], false, 3);
    }
    ctx.note(format!("alphabet of {} boxes", alphabet(&cs[0].1).len()));
}
