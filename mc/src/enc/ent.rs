//! Encoder-side model of the entropy coder.
use super::{Bw, D::*, ceil_log2};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Uint {
    pub split: u32,
    pub msb: u32,
    pub lsb: u32,
}
pub const U420: Uint = Uint { split: 4, msb: 2, lsb: 0 };
impl Uint {
    /// (token, number of extra bits, extra bits)
    pub fn enc(&self, v: u32) -> (u32, u32, u32) {
        if (v as u64) < 1u64 << self.split {
            return (v, 0, 0);
        }
        let n = 31 - v.leading_zeros();
        let m = v - (1 << n);
        let nb = n - self.msb - self.lsb;
        let tok = (1u32 << self.split)
            + ((n - self.split) << (self.msb + self.lsb))
            + ((m >> (n - self.msb)) << self.lsb)
            + (m & ((1 << self.lsb) - 1));
        let bits = (m >> self.lsb) & (((1u64 << nb) - 1) as u32);
        (tok, nb, bits)
    }
    pub fn write(&self, bw: &mut Bw, log_alpha: u32) {
        bw.u(ceil_log2(log_alpha as u64 + 1), self.split as u64);
        if self.split != log_alpha {
            bw.u(ceil_log2(self.split as u64 + 1), self.msb as u64);
            bw.u(ceil_log2((self.split - self.msb) as u64 + 1), self.lsb as u64);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sym {
    Lit(usize, u32),
    /// Copy in a context: number of symbols, distance symbol.
    Copy(usize, u32, u32),
}
#[derive(Clone, Debug)]
pub struct Lz {
    pub min_symbol: u32,
    pub min_length: u32,
    pub uint: Uint,
}
#[derive(Clone, Debug)]
pub enum CtxMap {
    /// bits per entry 0..3
    Simple(Vec<u8>, u32),
    Coded { map: Vec<u8>, mtf: bool, ent: Box<Ent>, copies: bool },
}
impl CtxMap {
    pub fn map(&self) -> &[u8] {
        match self {
            CtxMap::Simple(m, _) => m,
            CtxMap::Coded { map, .. } => map,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Code {
    Auto,
    /// Prefix code by lengths, written with the code-length code. `rle`: use the repeat codes.
    Lens(Vec<u8>, bool),
    /// Simple prefix code: alphabet size, symbols in the order written, tree selector for four symbols.
    Simple(usize, Vec<u32>, bool),
    /// Alphabet of one symbol: no description at all.
    One,
    AnsSingle(u32),
    AnsTwo(u32, u32, u32),
    AnsFlat(u32),
    /// shift, counts, use repeats
    AnsComplex(u32, Vec<u32>, bool),
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub num_ctx: usize,
    pub lz77: Option<Lz>,
    /// None: all contexts in one cluster
    pub map: Option<CtxMap>,
    pub prefix: bool,
    pub log_alpha: u32,
    pub uint: Vec<Uint>,
    pub codes: Vec<Code>,
    ready: Vec<Ready>,
}
#[derive(Clone, Debug)]
struct Ready {
    /// per symbol: (length, code bits in writing order) for prefix codes
    pre: Vec<(u8, u32)>,
    /// per symbol: slots of the 4096-entry table
    ans: Vec<Vec<u16>>,
}
impl Ent {
    pub fn auto(num_ctx: usize) -> Ent {
        Ent {
            num_ctx,
            lz77: None,
            map: None,
            prefix: true,
            log_alpha: 8,
            uint: vec![U420],
            codes: vec![Code::Auto],
            ready: vec![],
        }
    }
    pub fn ans(mut self) -> Ent {
        self.prefix = false;
        self
    }
    pub fn with_uint(mut self, u: Uint) -> Ent {
        self.uint = vec![u; self.uint.len()];
        self
    }
    pub fn with_lz(mut self, min_symbol: u32, min_length: u32) -> Ent {
        self.lz77 = Some(Lz { min_symbol, min_length, uint: Uint { split: 0, msb: 0, lsb: 0 } });
        self
    }
    /// Clusters the contexts (including the distance context when copies are enabled).
    pub fn with_map(mut self, m: CtxMap) -> Ent {
        let n = *m.map().iter().max().unwrap() as usize + 1;
        self.uint = vec![self.uint[0]; n];
        self.codes = vec![self.codes[0].clone(); n];
        self.map = Some(m);
        self
    }
    pub fn with_codes(mut self, c: Vec<Code>) -> Ent {
        self.codes = c;
        self
    }
    fn cluster(&self, ctx: usize) -> usize {
        match &self.map {
            None => 0,
            Some(m) => m.map()[ctx] as usize,
        }
    }
    fn dist_ctx(&self) -> usize {
        self.num_ctx
    }
    fn log_a(&self) -> u32 {
        if self.prefix { 15 } else { self.log_alpha }
    }
    /// (cluster, token, extra bits) in reading order
    fn flat(&self, syms: &[Sym]) -> Vec<(usize, u32, u32, u32)> {
        let mut v = vec![];
        for s in syms {
            match *s {
                Sym::Lit(c, x) => {
                    let k = self.cluster(c);
                    let (t, n, b) = self.uint[k].enc(x);
                    v.push((k, t, n, b));
                }
                Sym::Copy(c, len, dist) => {
                    let lz = self.lz77.as_ref().unwrap();
                    let (t, n, b) = lz.uint.enc(len - lz.min_length);
                    v.push((self.cluster(c), t + lz.min_symbol, n, b));
                    let k = self.cluster(self.dist_ctx());
                    let (t, n, b) = self.uint[k].enc(dist);
                    v.push((k, t, n, b));
                }
            }
        }
        v
    }
    /// Chooses codes for all the symbol sequences that will be written with it.
    pub fn prepare(&mut self, all: &[&[Sym]]) {
        let nk = self.uint.len();
        let mut freq: Vec<Vec<u64>> = vec![vec![]; nk];
        for s in all {
            for (k, t, _, _) in self.flat(s) {
                if freq[k].len() <= t as usize {
                    freq[k].resize(t as usize + 1, 0);
                }
                freq[k][t as usize] += 1;
            }
        }
        if !self.prefix {
            let need = freq.iter().map(|f| f.len()).max().unwrap_or(1).max(3);
            let mut la = ceil_log2(need as u64).max(5);
            if self.codes.iter().any(|c| *c != Code::Auto) {
                la = la.max(self.log_alpha);
            }
            // the split exponent must not exceed the alphabet's
            la = la.max(self.uint.iter().map(|u| u.split).max().unwrap()).max(5);
            assert!(la <= 8, "alphabet too large for ANS");
            self.log_alpha = la;
        }
        for k in 0..nk {
            if self.codes[k] == Code::Auto {
                let used: Vec<u32> = (0..freq[k].len()).filter(|i| freq[k][*i] > 0).map(|x| x as u32).collect();
                self.codes[k] = if self.prefix {
                    match used.len() {
                        0 => Code::One,
                        1 if used[0] == 0 => Code::One,
                        n if n <= 4 && freq[k].len() > 1 => {
                            let mut u = used.clone();
                            u.sort_by_key(|s| std::cmp::Reverse(freq[k][*s as usize]));
                            Code::Simple(freq[k].len(), u, n == 4)
                        }
                        _ => Code::Lens(huffman_lengths(&freq[k], 15), true),
                    }
                } else {
                    match used.len() {
                        0 => Code::AnsSingle(0),
                        1 => Code::AnsSingle(used[0]),
                        2 => {
                            let (a, b) = (freq[k][used[0] as usize], freq[k][used[1] as usize]);
                            let p = (a * 4096 / (a + b)).clamp(1, 4095);
                            Code::AnsTwo(used[0], used[1], p as u32)
                        }
                        _ => Code::AnsComplex(12, normalize(&freq[k]), true),
                    }
                };
            }
        }
        self.ready = self.codes.iter().map(|c| self.make_ready(c)).collect();
    }
    fn make_ready(&self, c: &Code) -> Ready {
        let mut r = Ready { pre: vec![], ans: vec![] };
        match c {
            Code::Auto => unreachable!(),
            Code::One => r.pre = vec![(0, 0)],
            Code::Lens(l, _) => r.pre = canonical(l),
            Code::Simple(n, s, sel) => {
                let mut l = vec![0u8; *n];
                if s.len() == 1 {
                    r.pre = vec![(0, 0); *n];
                    return r;
                }
                let d: &[u8] = match (s.len(), sel) {
                    (2, _) => &[1, 1],
                    (3, _) => &[1, 2, 2],
                    (4, false) => &[2, 2, 2, 2],
                    _ => &[1, 2, 3, 3],
                };
                for (x, d) in s.iter().zip(d) {
                    l[*x as usize] = *d;
                }
                r.pre = canonical(&l);
            }
            Code::AnsSingle(_) | Code::AnsTwo(..) | Code::AnsFlat(_) | Code::AnsComplex(..) => {
                r.ans = ans_slots(&counts(c, 1 << self.log_alpha), self.log_alpha)
            }
        }
        r
    }
    pub fn write_header(&self, bw: &mut Bw) {
        let mut n = self.num_ctx;
        bw.b(self.lz77.is_some());
        if let Some(l) = &self.lz77 {
            bw.u32([V(224), V(512), V(4096), B(15, 8)], l.min_symbol);
            bw.u32([V(3), V(4), B(2, 5), B(8, 9)], l.min_length);
            l.uint.write(bw, 8);
            n += 1;
        }
        if n > 1 {
            match &self.map {
                None => {
                    bw.b(true);
                    bw.u(2, 0);
                }
                Some(m) => {
                    assert_eq!(m.map().len(), n);
                    write_ctx_map(bw, m);
                }
            }
        }
        bw.b(self.prefix);
        if !self.prefix {
            bw.u(2, self.log_alpha as u64 - 5);
        }
        for u in &self.uint {
            u.write(bw, self.log_a());
        }
        if self.prefix {
            let size = |c: &Code| match c {
                Code::One => 1,
                Code::Lens(l, _) => l.len(),
                Code::Simple(n, ..) => *n,
                _ => unreachable!(),
            };
            for c in &self.codes {
                varint16(bw, size(c) as u32 - 1);
            }
            for c in &self.codes {
                write_prefix_code(bw, c);
            }
        } else {
            for c in &self.codes {
                write_ans_hist(bw, c);
            }
        }
    }
    pub fn write_tokens(&self, bw: &mut Bw, syms: &[Sym]) {
        let f = self.flat(syms);
        if self.prefix {
            for (k, t, n, b) in f {
                let (l, c) = self.ready[k].pre[t as usize];
                assert!(l > 0 || self.codes[k] == Code::One || matches!(&self.codes[k], Code::Simple(_, s, _) if s.len() == 1)
                    || matches!(&self.codes[k], Code::Lens(..)), "symbol {t} has no code");
                bw.u(l as u32, c as u64);
                bw.u(n, b as u64);
            }
        } else {
            let (state, words) = self.ans_run(&f);
            bw.u(32, state as u64);
            for (i, (_, _, n, b)) in f.iter().enumerate() {
                if let Some(w) = words[i] {
                    bw.u(16, w as u64);
                }
                bw.u(*n, *b as u64);
            }
        }
    }
    fn ans_run(&self, f: &[(usize, u32, u32, u32)]) -> (u32, Vec<Option<u16>>) {
        let mut x: u64 = 0x130000;
        let mut words = vec![None; f.len()];
        for (i, (k, t, _, _)) in f.iter().enumerate().rev() {
            let slots = &self.ready[*k].ans[*t as usize];
            let fr = slots.len() as u64;
            assert!(fr > 0, "symbol {t} has probability zero");
            if x >= fr << 20 {
                words[i] = Some(x as u16);
                x >>= 16;
            }
            x = ((x / fr) << 12) + slots[(x % fr) as usize] as u64;
        }
        (x as u32, words)
    }
    /// Header and one sequence.
    pub fn write_all(mut self, bw: &mut Bw, syms: &[Sym]) {
        self.prepare(&[syms]);
        self.write_header(bw);
        self.write_tokens(bw, syms);
    }
}
pub fn write_ctx_map(bw: &mut Bw, m: &CtxMap) {
    match m {
        CtxMap::Simple(m, bits) => {
            bw.b(true);
            bw.u(2, *bits as u64);
            for x in m {
                bw.u(*bits, *x as u64);
            }
        }
        CtxMap::Coded { map, mtf, ent, copies } => {
            bw.b(false);
            bw.b(*mtf);
            let mut v = map.clone();
            if *mtf {
                let mut l: Vec<u8> = (0..=255).collect();
                for x in v.iter_mut() {
                    let p = l.iter().position(|y| y == x).unwrap();
                    let c = l.remove(p);
                    l.insert(0, c);
                    *x = p as u8;
                }
            }
            let lits: Vec<Sym> = if *copies {
                rle_syms(&v.iter().map(|x| (0, *x as u32)).collect::<Vec<_>>(), ent.lz77.as_ref().unwrap().min_length, 0)
            } else {
                v.iter().map(|x| Sym::Lit(0, *x as u32)).collect()
            };
            let mut e = (**ent).clone();
            e.prepare(&[&lits]);
            e.write_header(bw);
            e.write_tokens(bw, &lits);
        }
    }
}
pub fn varint16(bw: &mut Bw, v: u32) {
    if v == 0 {
        bw.b(false);
        return;
    }
    bw.b(true);
    let n = 31 - v.leading_zeros();
    bw.u(4, n as u64);
    bw.u(n, (v - (1 << n)) as u64);
}
fn u8code(bw: &mut Bw, v: u32) {
    if v == 0 {
        bw.b(false);
        return;
    }
    bw.b(true);
    let n = 31 - v.leading_zeros();
    bw.u(3, n as u64);
    bw.u(n, (v - (1 << n)) as u64);
}
/// Bits in writing order for canonical codes.
pub fn canonical(lens: &[u8]) -> Vec<(u8, u32)> {
    let mut r = vec![(0u8, 0u32); lens.len()];
    let used = lens.iter().filter(|l| **l > 0).count();
    if used == 1 {
        return r; // a single symbol takes no bits
    }
    let mut code = 0u32;
    for l in 1..=15u8 {
        for (s, x) in lens.iter().enumerate() {
            if *x == l {
                r[s] = (l, code.reverse_bits() >> (32 - l as u32));
                code += 1;
            }
        }
        code <<= 1;
    }
    r
}
/// Optimal-ish length-limited code lengths (package-merge by repeated halving of the frequencies).
pub fn huffman_lengths(freq: &[u64], limit: u8) -> Vec<u8> {
    let mut f: Vec<u64> = freq.to_vec();
    loop {
        let mut nodes: Vec<(u64, Vec<usize>)> = f.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, x)| (*x, vec![i])).collect();
        let mut l = vec![0u8; f.len()];
        if nodes.len() == 1 {
            l[nodes[0].1[0]] = 1;
            return l;
        }
        while nodes.len() > 1 {
            nodes.sort_by(|a, b| (b.0, &b.1).cmp(&(a.0, &a.1)));
            let a = nodes.pop().unwrap();
            let b = nodes.pop().unwrap();
            let mut m = a.1;
            m.extend(b.1);
            for s in &m {
                l[*s] += 1;
            }
            nodes.push((a.0 + b.0, m));
        }
        if *l.iter().max().unwrap() <= limit {
            return l;
        }
        for x in f.iter_mut() {
            if *x > 0 {
                *x = (*x + 1) / 2 + 1;
            }
        }
    }
}
fn normalize(freq: &[u64]) -> Vec<u32> {
    let total: u64 = freq.iter().sum();
    let mut c: Vec<u32> = freq.iter().map(|f| if *f == 0 { 0 } else { ((f * 4096 / total) as u32).max(1) }).collect();
    while c.len() < 3 {
        c.push(0)
    }
    loop {
        let s: i64 = c.iter().map(|x| *x as i64).sum();
        if s == 4096 {
            return c;
        }
        let m = (0..c.len()).max_by_key(|i| c[*i]).unwrap();
        c[m] = (c[m] as i64 + (4096 - s).max(-(c[m] as i64 / 2))) as u32;
    }
}
/// Probabilities (sum 4096) of an ANS code.
pub fn counts(c: &Code, table: usize) -> Vec<u32> {
    let mut d = vec![0u32; table];
    match c {
        Code::AnsSingle(s) => d[*s as usize] = 4096,
        Code::AnsTwo(a, b, p) => {
            d[*a as usize] = *p;
            d[*b as usize] = 4096 - *p;
        }
        Code::AnsFlat(n) => {
            for i in 0..*n {
                d[i as usize] = 4096 / n + (i < 4096 % n) as u32;
            }
        }
        Code::AnsComplex(_, c, _) => d[..c.len()].copy_from_slice(c),
        _ => unreachable!(),
    }
    d
}
/// For every symbol the table positions it owns, in the order of its offsets.
pub fn ans_slots(d: &[u32], log_alpha: u32) -> Vec<Vec<u16>> {
    let table = 1usize << log_alpha;
    let entry = 4096u32 >> log_alpha;
    let mut slots: Vec<Vec<u16>> = d.iter().map(|c| vec![0; *c as usize]).collect();
    if let Some(s) = d.iter().position(|x| *x == 4096) {
        slots[s] = (0..4096).collect();
        return slots;
    }
    let mut cut: Vec<u32> = (0..table).map(|i| d.get(i).copied().unwrap_or(0)).collect();
    let mut right: Vec<usize> = (0..table).collect();
    let mut off: Vec<u32> = vec![0; table];
    let mut over = vec![];
    let mut under = vec![];
    for i in 0..table {
        if cut[i] > entry {
            over.push(i)
        } else if cut[i] < entry {
            under.push(i)
        }
    }
    while let Some(&o) = over.last() {
        let u = under.pop().unwrap();
        let by = entry - cut[u];
        cut[o] -= by;
        right[u] = o;
        off[u] = cut[o];
        if cut[o] < entry {
            over.pop();
            under.push(o);
        } else if cut[o] == entry {
            over.pop();
        }
    }
    for i in 0..table {
        for p in 0..entry {
            let idx = (i as u32 * entry + p) as u16;
            if p < cut[i] {
                slots[i][p as usize] = idx;
            } else {
                slots[right[i]][(off[i] + p - cut[i]) as usize] = idx;
            }
        }
    }
    slots
}
pub const LOGCOUNT_CODE: [(u32, u32); 14] = [
    // (bits, length) in writing order
    (0b10001, 5), (0b1011, 4), (0b1111, 4), (0b0011, 4), (0b1001, 4), (0b0111, 4), (0b100, 3), (0b010, 3), (0b101, 3),
    (0b110, 3), (0b000, 3), (0b100001, 6), (0b0000001, 7), (0b1000001, 7),
];
fn write_ans_hist(bw: &mut Bw, c: &Code) {
    match c {
        Code::AnsSingle(s) => {
            bw.b(true);
            bw.b(false);
            u8code(bw, *s);
        }
        Code::AnsTwo(a, b, p) => {
            bw.b(true);
            bw.b(true);
            u8code(bw, *a);
            u8code(bw, *b);
            bw.u(12, *p as u64);
        }
        Code::AnsFlat(n) => {
            bw.b(false);
            bw.b(true);
            u8code(bw, n - 1);
        }
        Code::AnsComplex(shift, counts, rle) => {
            bw.b(false);
            bw.b(false);
            let len = 31 - (shift + 1).leading_zeros();
            for _ in 0..len {
                bw.b(true);
            }
            if len < 3 {
                bw.b(false);
            }
            bw.u(len, (shift + 1 - (1 << len)) as u64);
            u8code(bw, counts.len() as u32 - 3);
            let log = |x: u32| 32 - x.leading_zeros(); // 0 -> 0, 1 -> 1, 2..3 -> 2
            let omit = (0..counts.len()).max_by(|a, b| log(counts[*a]).cmp(&log(counts[*b])).then(b.cmp(a))).unwrap();
            let mut kept = vec![];
            let mut i = 0;
            while i < counts.len() {
                if *rle && i > 0 && i - 1 != omit {
                    let mut n = 0;
                    while i + n < counts.len() && counts[i + n] == counts[i - 1] && i + n != omit && n < 259 {
                        n += 1;
                    }
                    if n >= 4 {
                        let (b, l) = LOGCOUNT_CODE[13];
                        bw.u(l, b as u64);
                        u8code(bw, n as u32 - 4);
                        i += n;
                        continue;
                    }
                }
                let (b, l) = LOGCOUNT_CODE[log(counts[i]) as usize];
                bw.u(l, b as u64);
                kept.push(i);
                i += 1;
            }
            for i in kept {
                let c = counts[i];
                if i == omit || c <= 1 {
                    continue;
                }
                let z = log(c) - 1;
                let bits = (*shift as i32 - ((12 - z as i32) >> 1)).clamp(0, z as i32) as u32;
                let m = c - (1 << z);
                assert!(m & ((1 << (z - bits)) - 1) == 0, "count {c} not representable with shift {shift}");
                bw.u(bits, (m >> (z - bits)) as u64);
            }
        }
        _ => unreachable!(),
    }
}
const CL_ORDER: [usize; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
pub fn write_prefix_code(bw: &mut Bw, c: &Code) {
    match c {
        Code::One => {}
        Code::Simple(n, s, sel) => {
            if *n == 1 {
                return;
            }
            bw.u(2, 1);
            bw.u(2, s.len() as u64 - 1);
            for x in s {
                bw.u(ceil_log2(*n as u64), *x as u64);
            }
            if s.len() == 4 {
                bw.b(*sel);
            }
        }
        Code::Lens(lens, rle) => {
            if lens.len() == 1 {
                return;
            }
            // symbols of the code-length code: (symbol, extra bits, value)
            let last = lens.iter().rposition(|x| *x > 0).unwrap();
            let mut seq: Vec<(usize, u32, u32)> = vec![];
            let mut prev = 8u8;
            let mut i = 0;
            while i <= last {
                let v = lens[i];
                let mut run = 1;
                while i + run <= last && lens[i + run] == v {
                    run += 1;
                }
                if *rle && v == 0 && run >= 3 {
                    let k = run.min(10);
                    seq.push((17, 3, k as u32 - 3));
                    i += k;
                    // a following repeat code of the same kind would extend this one
                    if run > k {
                        seq.push((0, 0, 0));
                        i += 1;
                    }
                } else if *rle && v != 0 && v == prev && run >= 3 {
                    let k = run.min(6);
                    seq.push((16, 2, k as u32 - 3));
                    i += k;
                    if run > k {
                        seq.push((v as usize, 0, 0));
                        i += 1;
                    }
                } else {
                    seq.push((v as usize, 0, 0));
                    if v != 0 {
                        prev = v;
                    }
                    i += 1;
                }
            }
            let mut f = vec![0u64; 18];
            for s in &seq {
                f[s.0] += 1;
            }
            let cl = huffman_lengths(&f, 5);
            let single = f.iter().filter(|x| **x > 0).count() == 1;
            let skip = if cl[1] == 0 && cl[2] == 0 { if cl[3] == 0 { 3 } else { 2 } } else { 0 };
            bw.u(2, skip as u64);
            let mut space = 32i32;
            for &o in CL_ORDER.iter().skip(skip) {
                if space <= 0 {
                    break;
                }
                let (b, l) = match cl[o] {
                    0 => (0, 2),
                    4 => (1, 2),
                    3 => (2, 2),
                    2 => (3, 3),
                    1 => (7, 4),
                    _ => (15, 4),
                };
                bw.u(l, b);
                if cl[o] > 0 {
                    space -= 32 >> cl[o];
                }
            }
            let codes = canonical(&cl);
            for (s, n, v) in seq {
                if !single {
                    bw.u(codes[s].0 as u32, codes[s].1 as u64);
                }
                bw.u(n, v as u64);
            }
        }
        _ => unreachable!(),
    }
}
/// Turns runs of equal values into copies with the distance symbol `dist`.
pub fn rle_syms(vals: &[(usize, u32)], min_len: u32, dist: u32) -> Vec<Sym> {
    let mut r = vec![];
    let mut i = 0;
    while i < vals.len() {
        r.push(Sym::Lit(vals[i].0, vals[i].1));
        let mut n = 0;
        while i + 1 + n < vals.len() && vals[i + 1 + n].1 == vals[i].1 {
            n += 1;
        }
        if n as u32 >= min_len {
            r.push(Sym::Copy(vals[i + 1].0, n as u32, dist));
            i += n;
        }
        i += 1;
    }
    r
}
