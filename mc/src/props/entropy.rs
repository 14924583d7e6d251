//! C13: entropy-coded data. Code descriptions are enumerated as the decisions a description is made of, the meaning of
//! each is computed independently, and the decoder is compared on every bit pattern / coder state / symbol sequence.
use crate::enc::ent::{self, *};
use crate::enc::{Bw, ceil_log2};
use crate::engine::*;
use jxl::bit_reader::BitReader;
use jxl::entropy_coding::decode::{Histograms, SymbolReader};
use jxl::error::Error;
use jxl::headers::permutation::Permutation;

type Res = Result<u64, String>;

/// Everything up to the codes themselves: one cluster, symbols stand for themselves.
fn plain_prefix() -> Bw {
    let mut b = Bw::new();
    b.b(false);
    b.b(true);
    b.u(4, 15);
    b
}
fn hist(bytes: &[u8], n: usize, lz: bool) -> Result<(Histograms, usize), Error> {
    let mut br = BitReader::new(bytes);
    let h = Histograms::decode(n, &mut br, lz)?;
    Ok((h, br.total_bits_read()))
}
/// Reads symbols of the given contexts and checks the final state.
fn read_syms(h: &Histograms, bytes: &[u8], at: usize, ctxs: &[usize], width: Option<usize>) -> Result<(Vec<u32>, usize), Error> {
    let mut br = BitReader::new(bytes);
    br.skip_bits(at)?;
    let mut r = SymbolReader::new(h, &mut br, width)?;
    let v = ctxs.iter().map(|c| r.read_unsigned(h, &mut br, *c)).collect();
    r.check_final_state(h, &mut br)?;
    Ok((v, br.total_bits_read()))
}

// ---------------------------------------------------------------- prefix codes
/// Decoding table of the canonical code: (symbol, length) for every pattern of `l` bits.
fn lookup(lens: &[u8]) -> (u32, Vec<(u16, u8)>) {
    let l = *lens.iter().max().unwrap() as u32;
    let mut t = vec![(0u16, 0u8); 1 << l];
    for (s, (n, bits)) in canonical(lens).into_iter().enumerate() {
        if lens[s] > 0 {
            let mut p = bits as usize;
            while p < t.len() {
                t[p] = (s as u16, n);
                p += 1 << n;
            }
        }
    }
    (l, t)
}
/// A legal code, described in `b`: every bit pattern has to decode to the symbol of the canonical code.
fn check_prefix(b: &Bw, lens: &[u8], what: &dyn std::fmt::Debug) -> Res {
    let mut w = b.clone();
    w.u(7, 0x55);
    let (h, at) = hist(&w.bytes, 1, false).map_err(|e| format!("{what:?}: legal code refused: {e:?}"))?;
    if at != b.nbits {
        return Err(format!("{what:?}: description of {} bits, {at} read", b.nbits));
    }
    let (l, t) = lookup(lens);
    for p in 0..t.len() {
        for fill in [0u32, 0xffff] {
            let v = p as u32 | fill << l;
            let bytes = v.to_le_bytes();
            let mut br = BitReader::new(&bytes);
            let mut r = SymbolReader::new(&h, &mut br, None).map_err(|e| format!("{e:?}"))?;
            let s = r.read_unsigned(&h, &mut br, 0);
            if (s, br.total_bits_read()) != (t[p].0 as u32, t[p].1 as usize) {
                return Err(format!("{what:?}: bits {p:#b} decode to {s} ({} bits), not {:?}", br.total_bits_read(), t[p]));
            }
        }
    }
    Ok(2 * t.len() as u64)
}
fn refused(b: &Bw, what: &dyn std::fmt::Debug) -> Res {
    for fill in [0u64, u64::MAX] {
        let mut w = b.clone();
        for _ in 0..8 {
            w.u(64, fill);
        }
        if hist(&w.bytes, 1, false).is_ok() {
            return Err(format!("{what:?}: accepted"));
        }
    }
    Ok(2)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cl {
    L(u8),
    /// repeat the previous length (16) / zero (17), with extra bits
    R(u32),
    Z(u32),
}
#[derive(Clone)]
struct Lens {
    lens: Vec<u8>,
    n: usize,
    space: i32,
    prev: u8,
    /// running repetition: (kind, count so far)
    rep: Option<(u8, usize)>,
}
impl Lens {
    fn new(n: usize) -> Lens {
        Lens { lens: vec![], n, space: 32768, prev: 8, rep: None }
    }
    fn done(&self) -> bool {
        self.lens.len() == self.n || self.space == 0
    }
    /// false: illegal from here on
    fn push(&mut self, c: Cl) -> bool {
        match c {
            Cl::L(l) => {
                self.rep = None;
                self.lens.push(l);
                if l > 0 {
                    self.prev = l;
                    self.space -= 32768 >> l;
                }
            }
            Cl::R(x) | Cl::Z(x) => {
                let (kind, bits) = if matches!(c, Cl::R(_)) { (self.prev, 2) } else { (0, 3) };
                let before = match self.rep {
                    Some((k, n)) if k == kind => n,
                    _ => 0,
                };
                let total = if before > 0 { (before - 2) << bits } else { 0 } + x as usize + 3;
                self.rep = Some((kind, total));
                for _ in before..total {
                    self.lens.push(kind);
                    if kind > 0 {
                        self.space -= 32768 >> kind;
                    }
                }
            }
        }
        self.lens.len() <= self.n && self.space >= 0
    }
    fn legal(&self) -> Option<Vec<u8>> {
        let mut l = self.lens.clone();
        l.resize(self.n, 0);
        (self.space == 0).then_some(l)
    }
}
/// Writes a code-length code and the code lengths as its symbols.
fn write_lens(b: &mut Bw, n: usize, skip: usize, cl: &[u8; 18], ops: &[Cl]) {
    ent::varint16(b, n as u32 - 1);
    b.u(2, skip as u64);
    let mut space = 32i32;
    for &o in CL_ORDER.iter().skip(skip) {
        if space <= 0 {
            break;
        }
        let (v, l) = CL_BITS[cl[o] as usize];
        b.u(l, v);
        if cl[o] > 0 {
            space -= 32 >> cl[o];
        }
    }
    let codes = canonical(cl);
    let single = cl.iter().filter(|x| **x > 0).count() == 1;
    for op in ops {
        let (s, n, v) = match *op {
            Cl::L(l) => (l as usize, 0, 0),
            Cl::R(x) => (16, 2, x),
            Cl::Z(x) => (17, 3, x),
        };
        if !single {
            b.u(codes[s].0 as u32, codes[s].1 as u64);
        }
        b.u(n, v as u64);
    }
}
const CL_ORDER: [usize; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
const CL_BITS: [(u64, u32); 6] = [(0, 2), (7, 4), (3, 3), (2, 2), (1, 2), (15, 4)];
const CL_ALL: [u8; 18] = [4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5];

fn lens_walk(n: usize, alphabet: &[Cl], st: &Lens, ops: &mut Vec<Cl>, left: usize, count: &mut u64) -> Result<(), String> {
    for &c in alphabet {
        let mut s = st.clone();
        let ok = s.push(c);
        ops.push(c);
        let mut b = plain_prefix();
        let what = (n, &*ops);
        if !ok || s.done() {
            write_lens(&mut b, n, 0, &CL_ALL, ops);
            *count += match s.legal() {
                Some(l) if ok => check_prefix(&b, &l, &what)?,
                _ => refused(&b, &what)?,
            };
        } else if left > 1 {
            lens_walk(n, alphabet, &s, ops, left - 1, count)?;
        }
        ops.pop();
    }
    Ok(())
}
/// All complete codes with `n` used symbols, as numbers of codes of each length.
fn shapes(n: usize, max: u8) -> Vec<Vec<u8>> {
    fn go(len: u8, open: usize, left: usize, max: u8, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        // `open` internal positions at depth `len`
        if open > left {
            return;
        }
        for leaves in 0..=open {
            let rest = open - leaves;
            for _ in 0..leaves {
                cur.push(len);
            }
            if rest == 0 {
                if leaves == left {
                    out.push(cur.clone());
                }
            } else if len < max && left > leaves {
                go(len + 1, rest * 2, left - leaves, max, cur, out);
            }
            cur.truncate(cur.len() - leaves);
        }
    }
    let mut out = vec![];
    go(1, 2, n, max, &mut vec![], &mut out);
    out
}
fn arrangements(s: &[u8]) -> Vec<Vec<u8>> {
    let n = s.len();
    let mut v = vec![s.to_vec(), s.iter().rev().copied().collect()];
    let mut rot = s.to_vec();
    rot.rotate_left(n / 2);
    v.push(rot);
    v.push((0..n).map(|i| s[(i * 7 + 3) % n]).filter(|_| n % 7 != 0).collect());
    v.push(s.iter().flat_map(|l| [0, *l]).collect());
    v.push(s.iter().enumerate().flat_map(|(i, l)| std::iter::repeat_n(0, if i % 3 == 1 { 12 } else { 0 }).chain([*l])).collect());
    v.retain(|x| !x.is_empty());
    v
}
fn prefix(ctx: &Ctx) {
    // code lengths by every sequence of code-length symbols
    let alpha: Vec<Cl> = (0..=4).map(Cl::L).chain([Cl::L(15), Cl::R(0), Cl::R(1), Cl::Z(0), Cl::Z(2)]).collect();
    let (nmax, depth) = (ctx.pick(6, 7), ctx.pick(6, 7));
    let work: Vec<(usize, Cl)> = (2..=nmax).flat_map(|n| alpha.iter().map(move |c| (n, *c))).collect();
    ctx.note(format!("prefix codes: all sequences of up to {depth} code-length symbols from {} for alphabets of 2..={nmax}", alpha.len()));
    ctx.par(work.len(), |i| {
        let (n, first) = work[i];
        ctx.case(&format!("lengths/{n}/{first:?}"), || {
            let mut k = 0;
            let mut s = Lens::new(n);
            let ok = s.push(first);
            let mut ops = vec![first];
            if !ok || s.done() {
                let mut b = plain_prefix();
                write_lens(&mut b, n, 0, &CL_ALL, &ops);
                k += match s.legal() {
                    Some(l) if ok => check_prefix(&b, &l, &(n, &ops))?,
                    _ => refused(&b, &(n, &ops))?,
                };
            } else {
                lens_walk(n, &alpha, &s, &mut ops, depth - 1, &mut k)?;
            }
            Ok(Obs::batch(hash(&(n, i)), k, k))
        });
    });
    // repeated repetitions, in larger alphabets
    let reps: Vec<Cl> = vec![Cl::L(0), Cl::L(5), Cl::L(6), Cl::R(0), Cl::R(3), Cl::Z(0), Cl::Z(7)];
    ctx.par(reps.len() * 4, |i| {
        let (first, n) = (reps[i / 4], [33, 48, 64, 80][i % 4]);
        ctx.case(&format!("repeats/{n}/{first:?}"), || {
            let mut k = 0;
            let mut s = Lens::new(n);
            s.push(first);
            lens_walk(n, &reps, &s, &mut vec![first], ctx.pick(6, 7), &mut k)?;
            Ok(Obs::batch(hash(&(n, i, "r")), k, k))
        });
    });
    // code-length codes: up to four used symbols at every place
    let mut cls: Vec<Vec<(usize, u8)>> = vec![];
    fn pick(from: usize, cur: &mut Vec<(usize, u8)>, left: usize, out: &mut Vec<Vec<(usize, u8)>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if left == 0 {
            return;
        }
        for p in from..18 {
            for l in 1..=5 {
                cur.push((p, l));
                pick(p + 1, cur, left - 1, out);
                cur.pop();
            }
        }
    }
    pick(0, &mut vec![], ctx.pick(3, 4), &mut cls);
    for s in [vec![1u8, 2, 3, 4, 5, 5], vec![5, 5, 4, 3, 2, 1], vec![2, 2, 3, 3, 3, 4, 4], vec![5; 18], vec![4; 16]] {
        for off in 0..=18 - s.len() {
            cls.push(s.iter().enumerate().map(|(i, l)| (i + off, *l)).collect());
        }
    }
    ctx.note(format!("prefix codes: {} code-length codes with each way of leaving out leading zeros", cls.len()));
    let parts = 64;
    ctx.par(parts, |w| {
        ctx.case(&format!("length_codes/{w}"), || {
            let mut k = 0;
            for c in cls.iter().skip(w).step_by(parts) {
                let mut cl = [0u8; 18];
                let mut space = 32i32;
                for (p, l) in c {
                    if space > 0 {
                        cl[CL_ORDER[*p]] = *l;
                        space -= 32 >> l;
                    }
                }
                let used: Vec<usize> = (0..18).filter(|s| cl[*s] > 0).collect();
                let legal = used.len() == 1 || space == 0;
                for skip in [0usize, 2, 3] {
                    if CL_ORDER[..skip].iter().any(|o| cl[*o] > 0) {
                        continue;
                    }
                    let what = (skip, &cl);
                    if !legal {
                        let mut b = plain_prefix();
                        write_lens(&mut b, 6, skip, &cl, &[]);
                        k += refused(&b, &what)?;
                        continue;
                    }
                    for &s in &used {
                        match s {
                            1..=8 => {
                                let n = 1 << s;
                                let ops = vec![Cl::L(s as u8); n];
                                let mut b = plain_prefix();
                                write_lens(&mut b, n, skip, &cl, &ops);
                                k += check_prefix(&b, &vec![s as u8; n], &what)?;
                            }
                            // the repeated length is 8 at first: 3, 10, 38, 150, 254 of 256
                            16 => {
                                let ops = [Cl::R(3), Cl::R(3), Cl::R(1), Cl::R(3), Cl::R(3), Cl::R(3)];
                                let mut l = Lens::new(256);
                                let mut v = vec![];
                                for o in ops {
                                    if !l.done() && l.clone().push(o) {
                                        l.push(o);
                                        v.push(o);
                                    }
                                }
                                let mut b = plain_prefix();
                                if l.done() {
                                    write_lens(&mut b, 256, skip, &cl, &v);
                                    k += check_prefix(&b, &l.legal().unwrap(), &what)?;
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            Ok(Obs::batch(hash(&(w, "cl")), k, k))
        });
    });
    // tree shapes, up to the longest codes and second-level tables
    let n = ctx.pick(15, 18);
    let all: Vec<Vec<u8>> = (2..=n).flat_map(|k| shapes(k, 15)).collect();
    ctx.note(format!("prefix codes: {} tree shapes of up to {n} symbols in six arrangements, with and without repeat codes", all.len()));
    ctx.par(parts, |w| {
        ctx.case(&format!("shapes/{w}"), || {
            let mut k = 0;
            for s in all.iter().skip(w).step_by(parts) {
                for a in arrangements(s) {
                    for rle in [false, true] {
                        let mut b = plain_prefix();
                        varint16(&mut b, a.len() as u32 - 1);
                        write_prefix_code(&mut b, &Code::Lens(a.clone(), rle));
                        k += check_prefix(&b, &a, &a)?;
                    }
                }
            }
            Ok(Obs::batch(hash(&(w, "shape")), k, k))
        });
    });
    // large alphabets
    let mut big: Vec<Vec<u8>> = (1..=15).map(|l| vec![l as u8; 1 << l]).collect();
    for l in 9..=15u8 {
        // half of the codes short, the rest as long as possible
        big.push((0..8).map(|i| i + 1).chain(vec![l; 1 << (l - 8)]).collect());
        big.push(vec![l; 1 << (l - 8)].into_iter().chain((0..8).map(|i| 8 - i)).collect());
        // second-level tables of every size
        let mut v: Vec<u8> = vec![8; 250];
        for k in 0..6u8 {
            let d = 9 + (l + k) % 7;
            v.extend(vec![d; 1 << (d - 8)]);
        }
        big.push(v.clone());
        v.reverse();
        big.push(v);
    }
    ctx.par(big.len(), |i| {
        ctx.case(&format!("large/{i}"), || {
            let mut k = 0;
            for rle in [false, true] {
                let mut b = plain_prefix();
                varint16(&mut b, big[i].len() as u32 - 1);
                write_prefix_code(&mut b, &Code::Lens(big[i].clone(), rle));
                k += check_prefix(&b, &big[i], &(big[i].len(), i))?;
            }
            Ok(Obs::batch(hash(&(i, "large")), k, k))
        });
    });
    ctx.case("too_large", || {
        let mut k = 0;
        for n in [32769u32, 40000, 65536] {
            let mut b = plain_prefix();
            varint16(&mut b, n - 1);
            k += refused(&b, &n)?;
        }
        Ok(Obs::batch(1, k, k))
    });
    // simple codes
    let sizes: Vec<usize> = (1..=ctx.pick(7, 9)).chain([16, 17, 255, 256, 257, 32767, 32768]).collect();
    ctx.par(sizes.len(), |i| {
        let n = sizes[i];
        ctx.case(&format!("simple/{n}"), || {
            if n == 1 {
                let mut b = plain_prefix();
                varint16(&mut b, 0);
                let k = check_prefix(&b, &[0], &n)?;
                return Ok(Obs::batch(1, k, k));
            }
            let bits = ceil_log2(n as u64);
            let top = 1usize << bits;
            let syms: Vec<usize> = if top <= 16 { (0..top).collect() } else { vec![0, 1, n / 2, n - 1, n, top - 1] };
            let mut k = 0;
            for num in 1..=4usize {
                for c in 0..syms.len().pow(num as u32) {
                    let mut c = c;
                    let s: Vec<usize> = (0..num)
                        .map(|_| {
                            let x = syms[c % syms.len()];
                            c /= syms.len();
                            x
                        })
                        .collect();
                    if s.iter().any(|x| *x >= top) {
                        continue;
                    }
                    for sel in 0..if num == 4 { 2 } else { 1 } {
                        let mut b = plain_prefix();
                        varint16(&mut b, n as u32 - 1);
                        b.u(2, 1);
                        b.u(2, num as u64 - 1);
                        for x in &s {
                            b.u(bits, *x as u64);
                        }
                        if num == 4 {
                            b.u(1, sel);
                        }
                        let what = (n, &s, sel);
                        if s.iter().any(|x| *x >= n) || (1..num).any(|i| s[..i].contains(&s[i])) {
                            k += refused(&b, &what)?;
                            continue;
                        }
                        if num == 1 {
                            let (h, at) = hist(&b.bytes, 1, false).map_err(|e| format!("{what:?}: {e:?}"))?;
                            let (v, end) = read_syms(&h, &b.bytes, at, &[0, 0, 0], None).map_err(|e| format!("{what:?}: {e:?}"))?;
                            if at != b.nbits || end != at || v != [s[0] as u32; 3] {
                                return Err(format!("{what:?}: {v:?}"));
                            }
                            k += 1;
                            continue;
                        }
                        let d: &[u8] = match (num, sel) {
                            (2, _) => &[1, 1],
                            (3, _) => &[1, 2, 2],
                            (_, 0) => &[2; 4],
                            _ => &[1, 2, 3, 3],
                        };
                        let mut l = vec![0u8; n];
                        for (x, d) in s.iter().zip(d) {
                            l[*x] = *d;
                        }
                        k += check_prefix(&b, &l, &what)?;
                    }
                }
            }
            Ok(Obs::batch(hash(&(n, "simple")), k, k))
        });
    });
}

// ---------------------------------------------------------------- ANS
fn ans_start(la: u32) -> Bw {
    let mut b = Bw::new();
    b.b(false);
    b.b(false);
    b.u(2, la as u64 - 5);
    b.u(ceil_log2(la as u64 + 1), la as u64);
    b
}
fn u8code(b: &mut Bw, v: u32) {
    if v == 0 {
        return b.b(false);
    }
    b.b(true);
    let n = 31 - v.leading_zeros();
    b.u(3, n as u64);
    b.u(n, (v - (1 << n)) as u64);
}
#[derive(Clone, Copy, Debug)]
enum Log {
    N(u32),
    /// this many repetitions
    Rep(u32),
}
/// Writes a distribution by logarithms; None: illegal.
fn complex(b: &mut Bw, shift: u32, items: &[Log], fill: u64, la: u32) -> Option<Vec<u32>> {
    b.b(false);
    b.b(false);
    let len = 31 - (shift + 1).leading_zeros();
    for _ in 0..len {
        b.b(true);
    }
    if len < 3 {
        b.b(false);
    }
    b.u(len, (shift + 1 - (1 << len)) as u64);
    let n: u32 = items.iter().map(|i| if let Log::Rep(k) = i { *k } else { 1 }).sum();
    u8code(b, n - 3);
    if shift > 13 || n > 1 << la {
        return None;
    }
    let mut omit: Option<(u32, usize)> = None;
    let mut at = 0;
    let mut after_omit_rep = false;
    for i in items {
        match *i {
            Log::N(k) => {
                let (v, l) = LOGCOUNT_CODE[k as usize];
                b.u(l, v as u64);
                if omit.is_none_or(|o| k > o.0) {
                    omit = Some((k, at));
                    after_omit_rep = false;
                }
                at += 1;
            }
            Log::Rep(k) => {
                let (v, l) = LOGCOUNT_CODE[13];
                b.u(l, v as u64);
                u8code(b, k - 4);
                if omit.is_some_and(|o| o.1 + 1 == at) {
                    after_omit_rep = true;
                }
                at += k as usize;
            }
        }
    }
    let omit = omit?.1;
    if after_omit_rep {
        return None;
    }
    let mut c: Vec<u32> = vec![];
    let mut which = 0;
    for i in items {
        match *i {
            Log::N(k) => {
                let v = if c.len() == omit || k == 0 {
                    0
                } else if k == 1 {
                    1
                } else {
                    let z = k - 1;
                    let bits = (shift as i32 - ((12 - z as i32) >> 1)).clamp(0, z as i32) as u32;
                    let x = match fill {
                        0 => 0,
                        1 => (1u64 << bits) - 1,
                        _ => 0x5a96 >> which & ((1 << bits) - 1),
                    };
                    which += 1;
                    b.u(bits, x);
                    (1 << z) + ((x as u32) << (z - bits))
                };
                c.push(v);
            }
            Log::Rep(k) => {
                let p = c.last().copied().unwrap_or(0);
                for _ in 0..k {
                    c.push(p);
                }
            }
        }
        if c.iter().sum::<u32>() >= 4096 {
            return None;
        }
    }
    c[omit] = 4096 - c.iter().sum::<u32>();
    Some(c)
}
/// Every table position, with coder states of several sizes: symbols and final state.
fn check_ans(b: &Bw, la: u32, counts: &[u32], what: &dyn std::fmt::Debug) -> Res {
    let mut w = b.clone();
    w.u(7, 0x2a);
    let (h, at) = hist(&w.bytes, 1, false).map_err(|e| format!("{what:?}: legal distribution refused: {e:?}"))?;
    if at != b.nbits {
        return Err(format!("{what:?}: description of {} bits, {at} read", b.nbits));
    }
    let mut full = counts.to_vec();
    full.resize(1 << la, 0);
    let slots = ans_slots(&full, la);
    let mut map = vec![(0u32, 0u32); 4096];
    let mut seen = 0;
    for (s, v) in slots.iter().enumerate() {
        for (o, i) in v.iter().enumerate() {
            map[*i as usize] = (s as u32, o as u32);
            seen += 1;
        }
    }
    assert_eq!(seen, 4096);
    for idx in 0..4096u32 {
        let hi = match idx % 4 {
            0 => 0xfffff,
            1 => 16 + idx / 64,
            2 => idx.wrapping_mul(2654435761) >> 12,
            _ => 0x130,
        };
        let mut st = hi << 12 | idx;
        let mut bytes = [0u8; 12];
        bytes[..4].copy_from_slice(&st.to_le_bytes());
        let tail = [0x3c5a_u16, 0xfffe, 0x0001, 0x9b27];
        for (i, t) in tail.iter().enumerate() {
            bytes[4 + 2 * i..6 + 2 * i].copy_from_slice(&t.to_le_bytes());
        }
        let mut br = BitReader::new(&bytes);
        let mut r = SymbolReader::new(&h, &mut br, None).map_err(|e| format!("{e:?}"))?;
        let mut words = 0;
        for k in 0..3 {
            let (s, o) = map[(st & 4095) as usize];
            st = (st >> 12) * full[s as usize] + o;
            if st < 1 << 16 {
                st = st << 16 | tail[words] as u32;
                words += 1;
            }
            let g = r.read_unsigned(&h, &mut br, 0);
            if g != s {
                return Err(format!("{what:?}: state {:#x}: symbol {k} is {g}, not {s}", hi << 12 | idx));
            }
        }
        if br.total_bits_read() != 32 + 16 * words {
            return Err(format!("{what:?}: state {:#x}: {} bits read, not {}", hi << 12 | idx, br.total_bits_read(), 32 + 16 * words));
        }
        match r.check_final_state(&h, &mut br) {
            Ok(()) if st == 0x130000 => {}
            Err(_) if st != 0x130000 => {}
            x => return Err(format!("{what:?}: final state {st:#x}: {x:?}")),
        }
    }
    Ok(4096)
}
fn ans(ctx: &Ctx) {
    ctx.par(4 * 64, |i| {
        let (la, part) = (5 + (i / 64) as u32, i % 64);
        ctx.case(&format!("ans_short/{la}/{part}"), || {
            let mut k = 0;
            let top = 1u32 << la;
            for s in (part as u32..256).step_by(64) {
                let mut b = ans_start(la);
                b.b(true);
                b.b(false);
                u8code(&mut b, s);
                if s < top {
                    let mut c = vec![0; s as usize + 1];
                    c[s as usize] = 4096;
                    k += check_ans(&b, la, &c, &("single", s))?;
                } else {
                    k += refused(&b, &("single", s))?;
                }
                let mut b = ans_start(la);
                b.b(false);
                b.b(true);
                u8code(&mut b, s);
                if s < top {
                    let n = s + 1;
                    let c: Vec<u32> = (0..n).map(|i| 4096 / n + (i < 4096 % n) as u32).collect();
                    k += check_ans(&b, la, &c, &("flat", n))?;
                } else {
                    k += refused(&b, &("flat", s))?;
                }
            }
            // two symbols: every probability for one pair, boundary probabilities for all pairs of boundary symbols
            let pairs = [(0u32, 1u32), (1, 0), (0, top - 1), (top - 1, 0), (top / 2, 3), (3, top / 2), (top - 2, top - 1), (5, 5), (0, 0), (top % 256, 0), (0, 255), (255, 254)];
            for (pi, (x, y)) in pairs.into_iter().enumerate() {
                let step = if pi < 2 { ctx.pick(64, 8) } else { 512 };
                let ps: Vec<u32> = (0..4096).step_by(step).chain([1, 2, 3, 4094, 4095, 127, 128, 129]).collect();
                for p in ps.into_iter().skip(part).step_by(64) {
                    let mut b = ans_start(la);
                    b.b(true);
                    b.b(true);
                    u8code(&mut b, x);
                    u8code(&mut b, y);
                    b.u(12, p as u64);
                    let what = ("two", x, y, p);
                    if x == y || x >= top || y >= top {
                        k += refused(&b, &what)?;
                        continue;
                    }
                    let mut c = vec![0; x.max(y) as usize + 1];
                    c[x as usize] = p;
                    c[y as usize] = 4096 - p;
                    k += check_ans(&b, la, &c, &what)?;
                }
            }
            Ok(Obs::batch(hash(&i), k, k))
        });
    });
    // by logarithms: all items for small alphabets
    let mut lists: Vec<Vec<Log>> = vec![];
    fn fill(n: u32, items: &[Log], cur: &mut Vec<Log>, plain: usize, out: &mut Vec<Vec<Log>>) {
        if n == 0 {
            return out.push(cur.clone());
        }
        for i in items {
            let (k, p) = match *i {
                Log::N(_) => (1, 1),
                Log::Rep(k) => (k, 0),
            };
            if k <= n && p <= plain {
                cur.push(*i);
                fill(n - k, items, cur, plain - p, out);
                cur.pop();
            }
        }
    }
    let all: Vec<Log> = (0..=12).map(Log::N).collect();
    fill(3, &all, &mut vec![], 9, &mut lists);
    fill(4, &if ctx.quick() { [0, 1, 2, 5, 10, 11, 12].map(Log::N).to_vec() } else { all.clone() }, &mut vec![], 9, &mut lists);
    fill(5, &ctx.pick(&[0u32, 2, 9, 11][..], &[0, 1, 2, 3, 9, 10, 11][..]).iter().map(|x| Log::N(*x)).collect::<Vec<_>>(), &mut vec![], 9, &mut lists);
    let plain_lists = lists.len();
    let reps = [Log::N(0), Log::N(1), Log::N(3), Log::N(9), Log::N(11), Log::Rep(4), Log::Rep(5), Log::Rep(9)];
    for n in [5, 6, 8, 9, 10, 13, 14, 18, 32] {
        fill(n, &reps, &mut vec![], ctx.pick(3, 4), &mut lists);
    }
    for n in [33, 64, 100, 200, 255, 256] {
        fill(n, &[Log::N(2), Log::N(8), Log::Rep(31), Log::Rep(60), Log::Rep(97), Log::Rep(100), Log::Rep(n - 2)], &mut vec![], 4, &mut lists);
    }
    ctx.note(format!("histograms by logarithms: {plain_lists} without and {} with repetitions, each with several shifts, tables and fills", lists.len() - plain_lists));
    let parts = 128;
    ctx.par(parts, |w| {
        ctx.case(&format!("ans_complex/{w}"), || {
            let mut k = 0;
            for (i, items) in lists.iter().enumerate().skip(w).step_by(parts) {
                let n: u32 = items.iter().map(|i| if let Log::Rep(k) = i { *k } else { 1 }).sum();
                for shift in 0..15u32 {
                    if ctx.quick() && (i + shift as usize) % 5 != 0 && n > 3 {
                        continue;
                    }
                    for fill in 0..3 {
                        if ctx.quick() && n > 3 && (i / 5 + shift as usize) % 3 != fill as usize {
                            continue;
                        }
                        let la = match n {
                            0..=32 => 5 + (i as u32 + shift + fill as u32) % 4,
                            33..=64 => 6 + (i as u32 + shift) % 3,
                            65..=128 => 7,
                            _ => 8 - (shift == 3) as u32,
                        };
                        let mut b = ans_start(la);
                        let what = (la, shift, items, fill);
                        k += match complex(&mut b, shift, items, fill, la) {
                            Some(c) => check_ans(&b, la, &c, &what)?,
                            None => refused(&b, &what)?,
                        };
                    }
                }
            }
            Ok(Obs::batch(hash(&(w, "complex")), k, k))
        });
    });
}

// ---------------------------------------------------------------- hybrid integers
fn uints(ctx: &Ctx) {
    let las = [5u32, 6, 7, 8, 15];
    let mut work = vec![];
    for la in las {
        for split in 0..=la {
            work.push((la, split));
        }
    }
    ctx.par(work.len(), |i| {
        let (la, split) = work[i];
        ctx.case(&format!("integers/{la}/{split}"), || {
            let mut n = 0;
            let ms = if split == la { 0 } else { (1 << ceil_log2(split as u64 + 1)) - 1 };
            for msb in 0..=ms {
                let ls = if split == la || msb > split { 0 } else { (1 << ceil_log2((split - msb) as u64 + 1)) - 1 };
                for lsb in 0..=ls {
                    let u = Uint { split, msb, lsb };
                    let mut b = Bw::new();
                    b.b(false);
                    b.b(la == 15);
                    if la < 15 {
                        b.u(2, la as u64 - 5);
                    }
                    b.u(ceil_log2(la as u64 + 1), split as u64);
                    if split != la {
                        b.u(ceil_log2(split as u64 + 1), msb as u64);
                        if msb <= split {
                            b.u(ceil_log2((split - msb) as u64 + 1), lsb as u64);
                        }
                    }
                    if msb + lsb > split {
                        n += refused(&b, &u)?;
                        continue;
                    }
                    // all tokens: 256 codes of eight bits, or an even distribution
                    if la == 15 {
                        varint16(&mut b, 255);
                        write_prefix_code(&mut b, &Code::Lens(vec![8; 256], true));
                    } else {
                        b.b(false);
                        b.b(true);
                        u8code(&mut b, (1 << la) - 1);
                    }
                    let (h, at) = hist(&b.bytes, 1, false).map_err(|e| format!("{u:?}: {e:?}"))?;
                    if at != b.nbits {
                        return Err(format!("{u:?}: {} bits of description, {at} read", b.nbits));
                    }
                    let fast = h.can_use_config_420_fast_path();
                    if fast != (u == U420) {
                        return Err(format!("{u:?}: fast path {fast}"));
                    }
                    let codes = canonical(&[8; 256]);
                    let slots = ans_slots(&ent::counts(&Code::AnsFlat(1 << la.min(8)), 1 << la.min(8)), la.min(8));
                    for tok in 0..if la == 15 { 256u32 } else { 1 << la } {
                        let (nb, base) = if tok < 1 << split {
                            (0, None)
                        } else {
                            let x = tok - (1 << split);
                            let nb = split - msb - lsb + (x >> (msb + lsb));
                            (nb, Some(x))
                        };
                        if nb + msb + lsb >= 32 {
                            continue; // more than 32 bits: not a legal token
                        }
                        let top = ((1u64 << nb) - 1) as u32;
                        for e in [0, 1, top / 3, top / 3 * 2, top >> 1, top] {
                            if e > top {
                                continue;
                            }
                            let want = match base {
                                None => tok,
                                Some(x) => {
                                    let high = 1u32 << msb | (x >> lsb) & ((1 << msb) - 1);
                                    ((high as u64) << (nb + lsb) | (e as u64) << lsb | (x & ((1 << lsb) - 1)) as u64) as u32
                                }
                            };
                            let mut w = Bw::new();
                            if la == 15 {
                                w.u(8, codes[tok as usize].1 as u64);
                            } else {
                                // the state before the final one: this symbol, no word read
                                let s = &slots[tok as usize];
                                let f = s.len() as u32;
                                let st = (0x130000 / f) << 12 | s[(0x130000 % f) as usize] as u32;
                                w.u(32, st as u64);
                            }
                            w.u(nb, e as u64);
                            let end = w.nbits;
                            w.u(16, 0xa55a);
                            w.u(64, u64::MAX);
                            let (v, at) = read_syms(&h, &w.bytes, 0, &[0], None).map_err(|x| format!("{u:?} token {tok}: {x:?}"))?;
                            n += 1;
                            if v[0] != want || at != end {
                                return Err(format!("{u:?}: token {tok} with {nb} bits {e:#x} gives {} ({at} bits), not {want} ({end} bits)", v[0]));
                            }
                            let mut br = BitReader::new(&w.bytes);
                            let mut r = SymbolReader::new(&h, &mut br, None).map_err(|e| format!("{e:?}"))?;
                            let g = r.read_signed(&h, &mut br, 0);
                            if g != crate::enc::unpack_signed(want) {
                                return Err(format!("{want} as a signed number is {g}"));
                            }
                            if fast {
                                let mut br = BitReader::new(&w.bytes);
                                let mut r = SymbolReader::new(&h, &mut br, None).map_err(|e| format!("{e:?}"))?;
                                let g = r.read_unsigned_clustered_config_420(&h, &mut br, 0);
                                if g != want || br.total_bits_read() != end {
                                    return Err(format!("fast path: token {tok} with {nb} bits {e:#x} gives {g}, not {want}"));
                                }
                            }
                        }
                    }
                }
            }
            Ok(Obs::batch(hash(&(la, split)), n, n))
        });
    });
}

// ---------------------------------------------------------------- context maps
fn flat_ent(prefix: bool) -> Ent {
    if prefix { Ent::auto(1) } else { Ent::auto(1).ans() }
}
fn map_case(map: &[u8], how: CtxMap, what: &dyn std::fmt::Debug) -> Res {
    let n = map.len();
    let clusters = *map.iter().max().unwrap() as usize + 1;
    let hole = (0..clusters).any(|c| !map.contains(&(c as u8)));
    let mut k = 0;
    for prefix in [true, false] {
        let mut e = if prefix { Ent::auto(n) } else { Ent::auto(n).ans() };
        e = e.with_map(how.clone());
        // each cluster has one symbol, its own number
        let cc = (0..clusters)
            .map(|c| match (prefix, c) {
                (true, 0) => Code::One,
                (true, c) => Code::Simple(c + 1, vec![c as u32], false),
                _ => Code::AnsSingle(c as u32),
            })
            .collect();
        e = e.with_codes(cc).with_uint(Uint { split: 8, msb: 0, lsb: 0 });
        let mut b = Bw::new();
        let syms: Vec<Sym> = map.iter().enumerate().map(|(i, c)| Sym::Lit(i, *c as u32)).collect();
        e.prepare(&[]);
        e.write_header(&mut b);
        let at = b.nbits;
        e.write_tokens(&mut b, &syms);
        let r = hist(&b.bytes, n, false);
        k += 1;
        match (r, hole) {
            (Err(_), true) => continue,
            (Ok(_), true) => return Err(format!("{what:?} {map:?}: a map with unused clusters is accepted")),
            (Err(e), false) => return Err(format!("{what:?} {map:?}: {e:?}")),
            (Ok((h, a)), false) => {
                if a != at {
                    return Err(format!("{what:?} {map:?}: {at} bits, {a} read"));
                }
                if h.num_histograms() != clusters || (0..n).any(|c| h.map_context_to_cluster(c) != map[c] as usize) {
                    return Err(format!("{what:?}: map {map:?} read as {:?}", (0..n).map(|c| h.map_context_to_cluster(c)).collect::<Vec<_>>()));
                }
                let (v, _) = read_syms(&h, &b.bytes, at, &(0..n).collect::<Vec<_>>(), None).map_err(|e| format!("{map:?}: {e:?}"))?;
                if v.iter().zip(map).any(|(a, b)| *a != *b as u32) {
                    return Err(format!("{what:?}: {map:?} reads {v:?}"));
                }
            }
        }
    }
    Ok(k)
}
fn map_forms(map: &[u8]) -> Vec<(String, CtxMap)> {
    let mut v = vec![];
    let need = ceil_log2(*map.iter().max().unwrap() as u64 + 1);
    for bits in need..=3 {
        v.push((format!("simple{bits}"), CtxMap::Simple(map.to_vec(), bits)));
    }
    for mtf in [false, true] {
        for prefix in [true, false] {
            v.push((format!("coded/{mtf}/{prefix}"), CtxMap::Coded { map: map.to_vec(), mtf, ent: Box::new(flat_ent(prefix)), copies: false }));
            if map.len() > 3 && !mtf {
                let e = flat_ent(prefix).with_lz(224, 3);
                v.push((format!("copied/{prefix}"), CtxMap::Coded { map: map.to_vec(), mtf, ent: Box::new(e), copies: true }));
            }
        }
    }
    // copies of a coded map need a wider alphabet than ANS has
    v.retain(|(n, _)| n != "copied/false");
    v
}
fn maps(ctx: &Ctx) {
    let (n, c) = ctx.pick((5usize, 4u64), (6, 4));
    ctx.note(format!("context maps: all of 2..={n} contexts into {c} clusters, in every encoding; large ones up to 256 clusters"));
    let mut work = vec![];
    for k in 2..=n {
        for first in 0..c.pow(2) {
            work.push((k, first));
        }
    }
    ctx.par(work.len(), |i| {
        let (k, first) = work[i];
        ctx.case(&format!("maps/{k}/{first}"), || {
            let mut e = 0;
            for rest in 0..c.pow(k as u32 - 2) {
                let mut x = first + c * c * rest;
                let m: Vec<u8> = (0..k)
                    .map(|_| {
                        let d = (x % c) as u8;
                        x /= c;
                        d
                    })
                    .collect();
                for (what, how) in map_forms(&m) {
                    e += map_case(&m, how, &what)?;
                }
            }
            Ok(Obs::batch(hash(&(k, first)), e, e))
        });
    });
    let mut big: Vec<Vec<u8>> = vec![];
    for clusters in [5usize, 7, 8, 9, 64, 127, 128, 129, 200, 255, 256] {
        for n in [clusters, clusters + 1, 300] {
            if n < clusters {
                continue;
            }
            big.push((0..n).map(|i| (i % clusters) as u8).collect());
            big.push((0..n).map(|i| ((n - 1 - i) % clusters) as u8).collect());
            big.push((0..n).map(|i| (i * clusters / n) as u8).collect());
            // without one of them
            big.push((0..n).map(|i| if i % clusters == clusters / 2 { 0 } else { (i % clusters) as u8 }).collect());
        }
    }
    ctx.par(big.len(), |i| {
        ctx.case(&format!("large_maps/{i}"), || {
            let mut k = 0;
            for (what, how) in map_forms(&big[i]) {
                k += map_case(&big[i], how, &(i, what))?;
            }
            Ok(Obs::batch(hash(&(i, "map")), k, k))
        });
    });
}

// ---------------------------------------------------------------- sequences
/// What a sequence of literals and copies stands for.
fn expand(syms: &[Sym], width: u32) -> Option<Vec<(usize, u32)>> {
    let mut v: Vec<(usize, u32)> = vec![];
    for s in syms {
        match *s {
            Sym::Lit(c, x) => v.push((c, x)),
            Sym::Copy(c, n, d) => {
                if v.is_empty() {
                    return None;
                }
                let dist = if width == 0 {
                    d as i64 + 1
                } else if d >= 120 {
                    d as i64 - 119
                } else {
                    let (x, y) = SPECIAL[d as usize];
                    (x as i64 + width as i64 * y as i64).max(1)
                };
                let dist = dist.min(1 << 20).min(v.len() as i64) as usize;
                for _ in 0..n {
                    v.push((c, v[v.len() - dist].1));
                }
            }
        }
    }
    Some(v)
}
/// Offsets of the two-dimensional distances, as listed in the specification.
pub const SPECIAL: [(i8, u8); 120] = [
    (0, 1), (1, 0), (1, 1), (-1, 1), (0, 2), (2, 0), (1, 2), (-1, 2), (2, 1), (-2, 1), (2, 2), (-2, 2), (0, 3), (3, 0), (1, 3),
    (-1, 3), (3, 1), (-3, 1), (2, 3), (-2, 3), (3, 2), (-3, 2), (0, 4), (4, 0), (1, 4), (-1, 4), (4, 1), (-4, 1), (3, 3), (-3, 3),
    (2, 4), (-2, 4), (4, 2), (-4, 2), (0, 5), (3, 4), (-3, 4), (4, 3), (-4, 3), (5, 0), (1, 5), (-1, 5), (5, 1), (-5, 1), (2, 5),
    (-2, 5), (5, 2), (-5, 2), (4, 4), (-4, 4), (3, 5), (-3, 5), (5, 3), (-5, 3), (0, 6), (6, 0), (1, 6), (-1, 6), (6, 1), (-6, 1),
    (2, 6), (-2, 6), (6, 2), (-6, 2), (4, 5), (-4, 5), (5, 4), (-5, 4), (3, 6), (-3, 6), (6, 3), (-6, 3), (0, 7), (7, 0), (1, 7),
    (-1, 7), (5, 5), (-5, 5), (7, 1), (-7, 1), (4, 6), (-4, 6), (6, 4), (-6, 4), (2, 7), (-2, 7), (7, 2), (-7, 2), (3, 7), (-3, 7),
    (7, 3), (-7, 3), (5, 6), (-5, 6), (6, 5), (-6, 5), (8, 0), (4, 7), (-4, 7), (7, 4), (-7, 4), (8, 1), (8, 2), (6, 6), (-6, 6),
    (8, 3), (5, 7), (-5, 7), (7, 5), (-7, 5), (8, 4), (6, 7), (-6, 7), (7, 6), (-7, 6), (8, 5), (7, 7), (-7, 7), (8, 6), (8, 7),
];
/// Encodes, decodes, compares; then every truncation, and going back one symbol everywhere.
fn sequence(e: &Ent, nctx: usize, syms: &[Sym], width: u32, cuts: bool) -> Res {
    let mut e = e.clone();
    e.prepare(&[syms]);
    let mut b = Bw::new();
    e.write_header(&mut b);
    let at = b.nbits;
    e.write_tokens(&mut b, syms);
    let end = b.nbits;
    let len = b.bytes.len();
    b.u(64, 0x5555_aaaa_0f0f_ffff);
    let w = (width > 0).then_some(width as usize);
    let (h, a) = hist(&b.bytes, nctx, true).map_err(|x| format!("{syms:?}: {x:?}"))?;
    if a != at {
        return Err(format!("{syms:?}: header of {at} bits, {a} read"));
    }
    let Some(want) = expand(syms, width) else {
        // a copy at the start: there is nothing to copy
        let Some(Sym::Copy(c, ..)) = syms.iter().find(|s| matches!(s, Sym::Copy(..))) else { unreachable!() };
        return match read_syms(&h, &b.bytes, at, &[*c], w) {
            Err(_) => Ok(1),
            r => Err(format!("{syms:?}: copy of nothing gives {r:?}")),
        };
    };
    let ctxs: Vec<usize> = want.iter().map(|x| x.0).collect();
    let vals: Vec<u32> = want.iter().map(|x| x.1).collect();
    let (v, fin) = read_syms(&h, &b.bytes, at, &ctxs, w).map_err(|x| format!("{syms:?} width {width}: {x:?}"))?;
    if v != vals || fin != end {
        let p = v.iter().zip(&vals).position(|(a, b)| a != b);
        let short = if vals.len() < 64 { format!("{v:?} instead of {vals:?}") } else { String::new() };
        return Err(format!("{:?} width {width}: difference at {p:?}, {fin} bits instead of {end}; {short}", &syms[..syms.len().min(20)]));
    }
    let mut k = 1;
    if cuts {
        for cut in at.div_ceil(8)..len {
            k += 1;
            if let Ok(r) = read_syms(&h, &b.bytes[..cut], at, &ctxs, w) {
                return Err(format!("{syms:?}: cut to {cut} of {len} bytes but decodes to {r:?}"));
            }
        }
        let mut br = BitReader::new(&b.bytes);
        br.skip_bits(at).unwrap();
        let mut r = SymbolReader::new(&h, &mut br, w).map_err(|x| format!("{x:?}"))?;
        for i in 0..vals.len() {
            let c = r.checkpoint::<4>();
            let mut other = br.clone();
            for j in i..vals.len().min(i + 1 + i % 4) {
                if r.read_unsigned(&h, &mut other, ctxs[j]) != vals[j] {
                    return Err(format!("{syms:?}: symbol {j} differs when reading ahead from {i}"));
                }
            }
            r.restore(c);
            if r.read_unsigned(&h, &mut br, ctxs[i]) != vals[i] {
                return Err(format!("{syms:?}: symbol {i} differs after going back"));
            }
            k += 1;
        }
        r.check_final_state(&h, &mut br).map_err(|x| format!("{syms:?}: after going back everywhere: {x:?}"))?;
    }
    Ok(k)
}
fn sequences(ctx: &Ctx) {
    // interleaved contexts
    let kinds = ["prefix", "ans"];
    let depth = ctx.pick(5, 6);
    ctx.par(2 * 9, |i| {
        let (kind, first) = (i / 9, i % 9);
        ctx.case(&format!("contexts/{}/{first}", kinds[kind]), || {
            let mut k = 0;
            let vals = [0u32, 1, 700];
            for map in [vec![0u8, 0, 0], vec![0, 1, 2], vec![1, 0, 1]] {
                let mut e = Ent::auto(3).with_map(CtxMap::Simple(map, 2)).with_uint(Uint { split: 2, msb: 1, lsb: 0 });
                e.prefix = kind == 0;
                for c in 0..9usize.pow(depth as u32 - 1) {
                    let mut c = c * 9 + first;
                    let s: Vec<Sym> = (0..depth)
                        .map(|_| {
                            let x = c % 9;
                            c /= 9;
                            Sym::Lit(x / 3, vals[x % 3])
                        })
                        .collect();
                    k += sequence(&e, 3, &s, 0, c % 7 == 0)?;
                }
            }
            Ok(Obs::batch(hash(&i), k, k))
        });
    });
    // copies: every sequence of a few operations
    let widths = [0u32, 1, 2, 3, 5, 8, 100];
    let ops: Vec<Sym> = vec![
        Sym::Lit(0, 3), Sym::Lit(1, 9), Sym::Copy(0, 3, 0), Sym::Copy(1, 4, 1), Sym::Copy(0, 3, 3), Sym::Copy(0, 5, 119), Sym::Copy(1, 11, 120),
        Sym::Copy(0, 3, 122), Sym::Copy(0, 7, 2), Sym::Copy(0, 300, 7),
    ];
    let depth = ctx.pick(4, 5);
    ctx.note(format!("back-references: all sequences of {depth} operations from {} for image widths {widths:?}", ops.len()));
    ctx.par(widths.len() * ops.len(), |i| {
        let (w, first) = (widths[i / ops.len()], i % ops.len());
        ctx.case(&format!("copies/{w}/{first}"), || {
            let mut k = 0;
            for kind in 0..4 {
                let mut e = Ent::auto(2).with_map(CtxMap::Simple(if kind < 2 { vec![0, 0, 0] } else { vec![0, 1, 2] }, 2));
                e.prefix = kind % 2 == 0;
                if e.prefix {
                    e = e.with_lz(224, 3);
                    e.lz77.as_mut().unwrap().uint = Uint { split: 3, msb: 1, lsb: 1 };
                } else {
                    e = e.with_lz(20, 3);
                    e.lz77.as_mut().unwrap().uint = Uint { split: 1, msb: 0, lsb: 0 };
                }
                for c in 0..ops.len().pow(depth as u32 - 1) {
                    let mut c = c * ops.len() + first;
                    let s: Vec<Sym> = (0..depth)
                        .map(|_| {
                            let x = ops[c % ops.len()];
                            c /= ops.len();
                            x
                        })
                        .collect();
                    k += sequence(&e, 2, &s, w, (k % 5) == 0)?;
                }
            }
            Ok(Obs::batch(hash(&(w, first)), k, k))
        });
    });
    // every short distance at every width, every configuration of the copy parameters
    ctx.par(12, |i| {
        let w = [0u32, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 1000][i];
        ctx.case(&format!("distances/{w}"), || {
            let mut k = 0;
            for d in 0..140 {
                for before in [1usize, 2, 5, 9, 40, 90, 300] {
                    let mut s: Vec<Sym> = (0..before).map(|i| Sym::Lit(0, (i * 37 % 211) as u32)).collect();
                    s.push(Sym::Copy(0, 4 + d % 5, d));
                    s.push(Sym::Lit(0, 5));
                    let e = Ent::auto(1).with_lz(224, 3).with_uint(Uint { split: 7, msb: 1, lsb: 0 });
                    k += sequence(&e, 1, &s, w, false)?;
                }
            }
            Ok(Obs::batch(hash(&(w, "d")), k, k))
        });
    });
    ctx.par(6, |i| {
        let min_symbol = [8u32, 9, 224, 512, 4096, 32775][i];
        ctx.case(&format!("parameters/{min_symbol}"), || {
            let mut k = 0;
            if min_symbol == 32775 {
                return Ok(Obs::new(0, 0)); // larger than any alphabet: never a copy
            }
            for min_len in [3u32, 4, 5, 8, 9, 264] {
                for uint in [Uint { split: 0, msb: 0, lsb: 0 }, Uint { split: 4, msb: 2, lsb: 0 }, Uint { split: 5, msb: 1, lsb: 2 }, Uint { split: 8, msb: 0, lsb: 0 }] {
                    for extra in [0u32, 1, 2, 31, 32, 200, 5000] {
                        if min_symbol > 8 && uint.split == 8 && extra > 200 {
                            continue;
                        }
                        let mut e = Ent::auto(1).with_lz(min_symbol, min_len).with_uint(Uint { split: 2, msb: 0, lsb: 0 });
                        e.lz77.as_mut().unwrap().uint = uint;
                        let s = [Sym::Lit(0, 1), Sym::Lit(0, 6), Sym::Copy(0, min_len + extra, 1), Sym::Lit(0, 3), Sym::Copy(0, min_len, 0)];
                        k += sequence(&e, 1, &s, 0, extra < 40)?;
                    }
                }
            }
            Ok(Obs::batch(hash(&min_symbol), k, k))
        });
    });
    // around the window size
    ctx.par(8, |i| {
        ctx.case(&format!("window/{i}"), || {
            let mut k = 0;
            let win = 1u32 << 20;
            let e = Ent::auto(1).with_lz(224, 3).with_uint(Uint { split: 7, msb: 1, lsb: 0 });
            for extra in [-3i64, -1, 0, 1, 2, 1000] {
                let fill = (win as i64 + extra) as u32;
                let mut s: Vec<Sym> = (0..97).map(|i| Sym::Lit(0, i * 29 % 131)).collect();
                s.push(Sym::Copy(0, fill - 97, 96));
                s.extend([Sym::Lit(0, 200), Sym::Lit(0, 201)]);
                let d = [win - 1, win - 2, win, win + 5, 0, 1, win - 97, 3 * win][i];
                s.push(Sym::Copy(0, 50 + i as u32, d));
                s.push(Sym::Lit(0, 7));
                s.push(Sym::Copy(0, win + 10, d / 2));
                k += sequence(&e, 1, &s, 0, false)?;
            }
            Ok(Obs::batch(hash(&(i, "w")), k, k))
        });
    });
    // going back around the end of the window
    ctx.case("window/back", || {
        let e = Ent::auto(1).with_lz(224, 3).with_uint(Uint { split: 7, msb: 1, lsb: 0 });
        let mut s: Vec<Sym> = (0..97).map(|i| Sym::Lit(0, i * 29 % 131)).collect();
        s.push(Sym::Copy(0, (1 << 20) - 97 - 8, 96));
        s.extend((0..6).map(|i| Sym::Lit(0, 150 + i)));
        s.push(Sym::Copy(0, 12, 40));
        s.extend((0..6).map(|i| Sym::Lit(0, 160 + i)));
        s.push(Sym::Copy(0, 30, (1 << 20) - 4));
        let k = sequence(&e, 1, &s, 0, true)?;
        Ok(Obs::batch(1, k, k))
    });
    // copies where they are forbidden; a length that does not fit
    ctx.case("forbidden", || {
        let mut b = Bw::new();
        let mut e = Ent::auto(2).with_lz(224, 3);
        e.prepare(&[&[Sym::Lit(0, 1)]]);
        e.write_header(&mut b);
        b.u(64, 0);
        if hist(&b.bytes, 2, false).is_ok() {
            return Err("back-references accepted where they are not allowed".into());
        }
        // a context map of two contexts must not use them either
        for n in [2usize, 3] {
            let map = vec![0u8; n];
            let mut e = Ent::auto(n).with_map(CtxMap::Coded { map, mtf: false, ent: Box::new(Ent::auto(1).with_lz(224, 3)), copies: false });
            e.prepare(&[&[Sym::Lit(0, 1)]]);
            let mut b = Bw::new();
            e.write_header(&mut b);
            b.u(64, 0);
            if hist(&b.bytes, n, false).is_ok() != (n == 3) {
                return Err(format!("map of {n} contexts with back-references: {}", if n == 3 { "refused" } else { "accepted" }));
            }
        }
        let mut e = Ent::auto(1).with_lz(224, 264);
        e.lz77.as_mut().unwrap().uint = Uint { split: 0, msb: 0, lsb: 0 };
        let s = [Sym::Lit(0, 1), Sym::Copy(0, u32::MAX, 0)];
        // u32::MAX - 264 is fine; the same code with all bits set is 263 too many
        e.prepare(&[&s]);
        let mut b = Bw::new();
        e.write_header(&mut b);
        let at = b.nbits;
        e.write_tokens(&mut b, &s);
        let (h, _) = hist(&b.bytes, 1, true).map_err(|e| format!("{e:?}"))?;
        let read = |bytes: &[u8]| {
            let mut br = BitReader::new(bytes);
            br.skip_bits(at).unwrap();
            let mut r = SymbolReader::new(&h, &mut br, None).unwrap();
            let v = [r.read_unsigned(&h, &mut br, 0), r.read_unsigned(&h, &mut br, 0)];
            (v, r.check_final_state(&h, &mut br).is_ok())
        };
        if read(&b.bytes) != ([1, 1], true) {
            return Err(format!("longest copy: {:?}", read(&b.bytes)));
        }
        // the same token with all its bits set
        e.lz77.as_mut().unwrap().min_length = 0;
        let mut c = Bw::new();
        c.u(at as u32 % 8, 0);
        e.write_tokens(&mut c, &s);
        let c = [&b.bytes[..at / 8], &c.bytes[..], &[0; 8]].concat();
        if read(&c).1 {
            return Err("a copy of more than 2^32 symbols is accepted".into());
        }
        Ok(Obs::new(2, 4))
    });
    // damaged streams: the final state gives them away unless every value read is as consistent
    ctx.par(8, |i| {
        ctx.case(&format!("damage/{i}"), || {
            let mut k = 0;
            let e = Ent::auto(2).ans().with_map(CtxMap::Simple(vec![0, 1], 1)).with_uint(Uint { split: 5, msb: 0, lsb: 0 });
            let s: Vec<Sym> = (0..10 + i).map(|j| Sym::Lit(j % 2, ((j * (i + 3)) % 11) as u32)).collect();
            let mut e = e;
            e.prepare(&[&s]);
            let mut b = Bw::new();
            e.write_header(&mut b);
            let at = b.nbits;
            e.write_tokens(&mut b, &s);
            let (h, _) = hist(&b.bytes, 2, false).map_err(|e| format!("{e:?}"))?;
            let ctxs: Vec<usize> = (0..s.len()).map(|j| j % 2).collect();
            for bit in at..b.nbits {
                let mut c = b.bytes.clone();
                c[bit / 8] ^= 1 << (bit % 8);
                k += 1;
                // the symbols determine the stream: a different stream of the same symbols cannot be right
                if let Ok((v, n)) = read_syms(&h, &c, at, &ctxs, None) {
                    let again: Vec<Sym> = v.iter().zip(&ctxs).map(|(x, c)| Sym::Lit(*c, *x)).collect();
                    let mut w = Bw::new();
                    e.write_tokens(&mut w, &again);
                    if w.nbits != n - at {
                        return Err(format!("bit {bit} flipped: accepted as {v:?}"));
                    }
                    for j in 0..w.nbits {
                        if w.bytes[j / 8] >> (j % 8) & 1 != c[(at + j) / 8] >> ((at + j) % 8) & 1 {
                            return Err(format!("bit {bit} flipped: accepted as {v:?}"));
                        }
                    }
                }
            }
            Ok(Obs::batch(hash(&(i, "dmg")), k, k))
        });
    });
}

// ---------------------------------------------------------------- permutations
fn perms(ctx: &Ctx) {
    let n = ctx.pick(5u32, 6);
    let get = |x: u32| (ceil_log2(x as u64 + 1) as usize).min(7);
    ctx.note(format!("permutations: all Lehmer codes for sizes up to {n}, every skip and end, values one too large"));
    ctx.par(n as usize + 3, |i| {
        let size = if i < n as usize { i as u32 + 1 } else { [100, 1000, 4097][i - n as usize] };
        ctx.case(&format!("permutation/{size}"), || {
            let mut k = 0;
            let skips: Vec<u32> = if size <= n { (0..size).collect() } else { vec![0, 1, size / 2, size - 1] };
            for skip in skips {
                let m = size - skip;
                let ends: Vec<u32> = if size <= n { (0..=m + 1).collect() } else { vec![0, 1, m / 2, m, m + 1] };
                for end in ends {
                    let mut codes: Vec<Vec<u32>> = vec![vec![]];
                    if size <= n {
                        for j in 0..end {
                            let top = m.saturating_sub(j);
                            codes = codes.into_iter().flat_map(|c| (0..=top).map(move |x| [c.clone(), vec![x]].concat())).collect();
                        }
                    } else {
                        let f = |g: &dyn Fn(u32) -> u32| (0..end.min(m)).map(g).collect::<Vec<u32>>();
                        codes = vec![f(&|_| 0), f(&|j| m - 1 - j), f(&|j| (j * 7919) % (m - j)), f(&|j| (m - j) / 2), f(&|j| if j + 1 == end { m - j } else { 0 })];
                    }
                    for c in codes {
                        // only the first illegal value can be reached
                        if let Some(p) = c.iter().enumerate().position(|(j, x)| *x >= m.saturating_sub(j as u32)) {
                            if p + 1 != c.len() && end <= m {
                                continue;
                            }
                        }
                        let mut syms = vec![Sym::Lit(get(size), end)];
                        let mut prev = 0;
                        for x in &c {
                            syms.push(Sym::Lit(get(prev), *x));
                            prev = *x;
                        }
                        let mut e = Ent::auto(8);
                        e.prepare(&[&syms]);
                        let mut b = Bw::new();
                        e.write_header(&mut b);
                        let at = b.nbits;
                        e.write_tokens(&mut b, &syms);
                        let mut br = BitReader::new(&b.bytes);
                        let h = Histograms::decode(8, &mut br, true).map_err(|e| format!("{e:?}"))?;
                        assert_eq!(br.total_bits_read(), at);
                        let mut r = SymbolReader::new(&h, &mut br, None).map_err(|e| format!("{e:?}"))?;
                        let got = Permutation::decode(size, skip, &h, &mut br, &mut r);
                        k += 1;
                        let legal = end <= m && c.iter().enumerate().all(|(j, x)| *x < m - j as u32);
                        if !legal {
                            if let Ok(p) = got {
                                return Err(format!("size {size} skip {skip} end {end} {c:?}: accepted as {:?}", &p.0[..p.0.len().min(10)]));
                            }
                            continue;
                        }
                        let mut left: Vec<u32> = (skip..size).collect();
                        let mut want: Vec<u32> = (0..skip).collect();
                        for x in &c {
                            want.push(left.remove(*x as usize));
                        }
                        want.extend(left);
                        match got {
                            Ok(p) if p.0[..] == want[..] => {}
                            Ok(p) => return Err(format!("size {size} skip {skip} end {end}: {:?} instead of {:?}", &p.0[..p.0.len().min(10)], &want[..want.len().min(10)])),
                            Err(e) => return Err(format!("size {size} skip {skip} end {end} {:?}: {e:?}", &c[..c.len().min(10)])),
                        }
                        if br.total_bits_read() != b.nbits {
                            return Err(format!("size {size} skip {skip} end {end}: {} of {} bits", br.total_bits_read(), b.nbits));
                        }
                    }
                }
            }
            Ok(Obs::batch(hash(&size), k, k))
        });
    });
}
pub fn c13(ctx: &Ctx) {
    ctx.set_rule("every legal code description decodes every bit pattern / state / symbol sequence to the values it stands for and uses exactly its bits; illegal descriptions, wrong final states and truncated data are refused");
    prefix(ctx);
    ans(ctx);
    uints(ctx);
    maps(ctx);
    sequences(ctx);
    perms(ctx);
}
