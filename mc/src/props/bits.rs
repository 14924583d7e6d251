//! C14: bit-level reading for every sequence of operations up to a depth, and the field encodings
//! for every selector, payload boundary, bit offset and truncation point.
use crate::enc::Bw;
use crate::engine::*;
use jxl::bit_reader::BitReader;
use jxl::error::Error;
use jxl::headers::encodings::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read(usize),
    Optimistic(usize),
    Peek(usize),
    /// Peek the first, consume the second (not larger).
    PeekConsume(usize, usize),
    PeekConsumeOptimistic(usize, usize),
    Skip(usize),
    Jump,
    /// Split off this many bytes; go on with the part (true) or the rest.
    Split(usize, bool),
}
/// What a reader is: the bits from `pos` up to `end` of the string.
#[derive(Clone)]
struct Model {
    pos: usize,
    end: usize,
    /// Length of the string the reader (or the one it was split from) was made of.
    initial: usize,
}
fn bits(data: &[u8], pos: usize, n: usize, end: usize) -> u64 {
    let mut v = 0;
    for i in 0..n {
        let p = pos + i;
        if p < end && data[p / 8] >> (p % 8) & 1 == 1 {
            v |= 1u64 << i;
        }
    }
    v
}
fn missing<T: std::fmt::Debug>(r: Result<T, Error>, bits: usize, what: &str) -> Result<(), String> {
    match r {
        Err(Error::OutOfBounds(n)) if n == bits.div_ceil(8) => Ok(()),
        r => Err(format!("{what}: {bits} bits are missing but the result is {r:?}")),
    }
}
struct Walk<'a> {
    data: &'a [u8],
    ops: &'a [Op],
    trail: Vec<Op>,
    steps: u64,
}
impl<'a> Walk<'a> {
    /// Applies `op`; returns whether the sequence can go on.
    fn apply(&self, op: Op, br: &mut BitReader<'a>, m: &mut Model) -> Result<bool, String> {
        let left = m.end.saturating_sub(m.pos);
        match op {
            Op::Read(w) => {
                if w <= left {
                    let v = br.read(w).map_err(|e| format!("{e:?}"))?;
                    let want = bits(self.data, m.pos, w, m.end);
                    if v != want {
                        return Err(format!("value {v:#x}, not {want:#x}"));
                    }
                    m.pos += w;
                } else {
                    missing(br.read(w), w - left, "read")?;
                }
            }
            Op::Optimistic(w) => {
                let v = br.read_optimistic(w);
                let want = bits(self.data, m.pos, w, m.end);
                if v != want {
                    return Err(format!("value {v:#x}, not {want:#x}"));
                }
                m.pos += w;
            }
            Op::Peek(w) => {
                let v = br.peek(w);
                let want = bits(self.data, m.pos, w, m.end);
                if v != want {
                    return Err(format!("value {v:#x}, not {want:#x}"));
                }
            }
            Op::PeekConsume(w, c) => {
                br.peek(w);
                if c <= left {
                    br.consume(c).map_err(|e| format!("{e:?}"))?;
                    m.pos += c;
                } else {
                    missing(br.consume(c), c - left, "consume")?;
                }
            }
            Op::PeekConsumeOptimistic(w, c) => {
                br.peek(w);
                br.consume_optimistic(c);
                m.pos += c;
            }
            Op::Skip(n) => {
                if n <= left {
                    br.skip_bits(n).map_err(|e| format!("{e:?}"))?;
                    m.pos += n;
                } else {
                    missing(br.skip_bits(n), n - left, "skip")?;
                    m.pos = m.pos.max(m.end);
                }
            }
            Op::Jump => {
                let w = m.pos.div_ceil(8) * 8 - m.pos;
                if br.bits_to_next_byte() != w {
                    return Err(format!("bits_to_next_byte is {}", br.bits_to_next_byte()));
                }
                let r = br.jump_to_byte_boundary();
                if w > left {
                    missing(r, w - left, "jump")?;
                } else {
                    let z = bits(self.data, m.pos, w, m.end) == 0;
                    m.pos += w;
                    match r {
                        Ok(()) if z => {}
                        Err(Error::NonZeroPadding) if !z => {}
                        r => return Err(format!("padding zero: {z}, result {r:?}")),
                    }
                }
            }
            Op::Split(n, part) => {
                let w = m.pos.div_ceil(8) * 8 - m.pos;
                let r = br.split_at(n);
                if w > left {
                    missing(r.map(|_| ()), w - left, "split")?;
                    return Ok(true);
                }
                let z = bits(self.data, m.pos, w, m.end) == 0;
                m.pos += w;
                if !z {
                    return match r {
                        Err(Error::NonZeroPadding) => Ok(true),
                        r => Err(format!("non-zero padding but {r:?}")),
                    };
                }
                let left = m.end.saturating_sub(m.pos);
                if n * 8 > left {
                    missing(r.map(|_| ()), n * 8 - left, "split")?;
                    m.pos = m.pos.max(m.end);
                    return Ok(true);
                }
                let p = r.map_err(|e| format!("{e:?}"))?;
                if part {
                    m.end = m.end.min(m.pos + n * 8);
                    *br = p;
                } else {
                    m.pos += n * 8;
                }
            }
        }
        Ok(true)
    }
    fn go(&mut self, br: &BitReader<'a>, m: &Model, depth: usize) -> Result<(), String> {
        for &op in self.ops {
            let (mut b, mut n) = (br.clone(), m.clone());
            self.trail.push(op);
            self.steps += 1;
            let r = self.apply(op, &mut b, &mut n).and_then(|_| self.observe(&b, &n));
            if let Err(e) = r {
                return Err(format!("{} bytes, {:?}: {e}", self.data.len(), self.trail));
            }
            if depth > 1 {
                self.go(&b, &n, depth - 1)?;
            }
            self.trail.pop();
        }
        Ok(())
    }
    fn observe(&self, b: &BitReader, m: &Model) -> Result<(), String> {
        if b.total_bits_read() != m.pos {
            return Err(format!("position {} instead of {}", b.total_bits_read(), m.pos));
        }
        if b.total_bits_available() != m.end.saturating_sub(m.pos) {
            return Err(format!("{} bits available instead of {}", b.total_bits_available(), m.end.saturating_sub(m.pos)));
        }
        // reading optimistically past the end is found out afterwards
        if m.end == m.initial || m.pos <= m.end {
            match b.check_for_error() {
                Ok(()) if m.pos <= m.end => {}
                Err(Error::OutOfBounds(n)) if m.pos > m.end && n == (m.pos - m.end).div_ceil(8) => {}
                r => return Err(format!("check_for_error at {} of {}: {r:?}", m.pos, m.end)),
            }
        }
        Ok(())
    }
}
fn strings(n: usize) -> Vec<Vec<u8>> {
    vec![
        (0..n).map(|i| (i as u8).wrapping_mul(0x9d).wrapping_add(0x35) ^ (i as u8) << 3).collect(),
        (0..n).map(|i| if i % 3 == 1 { 0xff } else { 0 }).collect(),
    ]
}
pub fn c14(ctx: &Ctx) {
    ctx.set_rule("every value read is the next bits of the string (beyond it: zero bits or an error with the number of missing bytes), positions add up, field encodings give the value defined for each selector");
    let wide: Vec<Op> = [0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 25, 31, 32, 33, 47, 55, 56]
        .iter()
        .flat_map(|w| [Op::Read(*w), Op::Optimistic(*w)])
        .chain([Op::Peek(1), Op::Peek(56), Op::Peek(8)])
        .chain([(8, 3), (15, 8), (56, 1), (56, 55), (56, 56), (16, 16), (32, 0)].iter().flat_map(|p| [Op::PeekConsume(p.0, p.1), Op::PeekConsumeOptimistic(p.0, p.1)]))
        .chain([0, 1, 7, 8, 9, 15, 31, 55, 56, 57, 63, 64, 65, 71, 72, 100, 128].iter().map(|n| Op::Skip(*n)))
        .chain([Op::Jump])
        .chain([0, 1, 2, 6, 7, 8, 9, 12].iter().flat_map(|n| [Op::Split(*n, true), Op::Split(*n, false)]))
        .collect();
    let narrow: Vec<Op> = vec![
        Op::Read(1), Op::Read(8), Op::Read(9), Op::Read(56), Op::Optimistic(5), Op::Optimistic(40), Op::Peek(56),
        Op::PeekConsume(12, 7), Op::Skip(3), Op::Skip(57), Op::Jump, Op::Split(3, true), Op::Split(8, false),
    ];
    let (dw, dn) = (ctx.pick(3, 4), ctx.pick(6, 7));
    let maxlen = ctx.pick(18, 26);
    let lens: Vec<usize> = (0..=maxlen).collect();
    ctx.note(format!("operation sequences: depth {dw} over {} operations, depth {dn} over {} operations, strings of 0..={maxlen} bytes", wide.len(), narrow.len()));
    let mut work = vec![];
    for n in &lens {
        for k in 0..2 {
            // one work item per first operation
            for (a, ops, d) in [(0, &wide, dw), (1, &narrow, dn)] {
                for first in ops.iter() {
                    work.push((*n, k, a, *first, ops.clone(), d));
                }
            }
        }
    }
    ctx.par(work.len(), |i| {
        let (n, k, a, first, ops, d) = &work[i];
        ctx.case(&format!("sequence/{n}/{k}/{a}/{first:?}"), || {
            let data = &strings(*n)[*k];
            let mut w = Walk { data, ops, trail: vec![*first], steps: 1 };
            let mut br = BitReader::new(data);
            let mut m = Model { pos: 0, end: n * 8, initial: n * 8 };
            w.apply(*first, &mut br, &mut m).and_then(|_| w.observe(&br, &m)).map_err(|e| format!("{n} bytes, {first:?}: {e}"))?;
            w.go(&br, &m, d - 1)?;
            Ok(Obs::batch(hash(&(n, k, a, i)), w.steps, w.steps))
        });
    });
    fields(ctx);
}
/// Reads one field at every bit offset, and from every truncated string.
fn field<T: std::fmt::Debug>(
    bits: &Bw,
    want: &dyn Fn(&Result<T, Error>) -> bool,
    read: &dyn Fn(&mut BitReader) -> Result<T, Error>,
) -> Result<u64, String> {
    let mut n = 0;
    for off in 0..8u32 {
        for fill in [0u64, 1] {
            let mut w = Bw::new();
            w.u(off, if fill == 1 { (1 << off) - 1 } else { 0 });
            w.append(bits);
            let end = w.nbits;
            for _ in 0..70 {
                w.b(fill == 1);
            }
            let mut br = BitReader::new(&w.bytes);
            br.skip_bits(off as usize).unwrap();
            let r = read(&mut br);
            n += 1;
            if !want(&r) {
                return Err(format!("offset {off}: {r:?}"));
            }
            if r.is_ok() && br.total_bits_read() != end {
                return Err(format!("offset {off}: {} bits read, {} written", br.total_bits_read() - off as usize, bits.nbits));
            }
            if r.is_err() {
                continue;
            }
            for cut in off.div_ceil(8) as usize..end.div_ceil(8) {
                let mut br = BitReader::new(&w.bytes[..cut]);
                br.skip_bits(off as usize).unwrap();
                n += 1;
                match read(&mut br) {
                    Err(Error::OutOfBounds(m)) if m >= 1 && m <= end.div_ceil(8) - cut => {}
                    r => return Err(format!("offset {off}, cut to {cut} of {} bytes: {r:?}", end.div_ceil(8))),
                }
            }
        }
    }
    Ok(n)
}
fn fields(ctx: &Ctx) {
    // U32: all selectors with direct values and bit fields of all widths and offsets
    ctx.par(33, |w| {
        ctx.case(&format!("u32/{w}"), || {
            let mut n = 0;
            let top = if w == 0 { 0u64 } else { (1u64 << w) - 1 };
            let offs: Vec<u32> = [0u32, 1, 5, 255, 1 << 20].into_iter().filter(|o| top + *o as u64 <= u32::MAX as u64).collect();
            for off in offs {
                for sel in 0..4u64 {
                    let conf = |s: u64| {
                        let mk = |k: u64| {
                            if k != s {
                                U32::Val(1000 + k as u32)
                            } else if off == 0 {
                                U32::Bits(w)
                            } else {
                                U32::BitsOffset { n: w, off }
                            }
                        };
                        U32Coder::Select(mk(0), mk(1), mk(2), mk(3))
                    };
                    let mut pay: Vec<u64> = vec![0, 1, top / 2, top / 3, top.saturating_sub(1), top];
                    pay.retain(|x| *x <= top);
                    pay.dedup();
                    for p in pay {
                        for s in 0..4u64 {
                            let mut b = Bw::new();
                            b.u(2, sel);
                            let want = if s == sel {
                                b.u(w as u32, p);
                                p as u32 + off
                            } else {
                                1000 + sel as u32
                            };
                            let c = conf(s);
                            n += field::<u32>(&b, &|r| matches!(r, Ok(v) if *v == want), &|br| u32::read_unconditional(&c, br, &Empty {}))?;
                        }
                        let mut b = Bw::new();
                        b.u(w as u32, p);
                        let c = U32Coder::Direct(U32::BitsOffset { n: w, off });
                        n += field::<u32>(&b, &|r| matches!(r, Ok(v) if *v == p as u32 + off), &|br| u32::read_unconditional(&c, br, &Empty {}))?;
                        let v = p as u32 + off;
                        let signed = if v & 1 == 0 { (v >> 1) as i64 } else { -((v >> 1) as i64) - 1 };
                        n += field::<i32>(&b, &|r| matches!(r, Ok(x) if *x as i64 == signed), &|br| i32::read_unconditional(&c, br, &Empty {}))?;
                    }
                }
            }
            Ok(Obs::batch(hash(&w), n, n))
        });
    });
    // U64: every selector and every length of the long form
    ctx.par(11, |k| {
        ctx.case(&format!("u64/{k}"), || {
            let mut n = 0;
            let read = |br: &mut BitReader| u64::read_unconditional(&(), br, &Empty {});
            let mut one = |b: &Bw, want: u64| -> Result<(), String> {
                n += field::<u64>(b, &|r| matches!(r, Ok(v) if *v == want), &read).map_err(|e| format!("{want}: {e}"))?;
                Ok(())
            };
            match k {
                0 => {
                    let mut b = Bw::new();
                    b.u(2, 0);
                    one(&b, 0)?;
                }
                1 => {
                    for p in 0..16 {
                        let mut b = Bw::new();
                        b.u(2, 1);
                        b.u(4, p);
                        one(&b, 1 + p)?;
                    }
                }
                2 => {
                    for p in 0..256 {
                        let mut b = Bw::new();
                        b.u(2, 2);
                        b.u(8, p);
                        one(&b, 17 + p)?;
                    }
                }
                _ => {
                    // k - 3 further bytes, the last possible one of four bits
                    let more = k - 3;
                    for first in [0u64, 1, 0x800, 0xfff, 0xa5a] {
                        for pat in [0u64, u64::MAX, 0x123456789abcdef, 0xf00f_00ff_8001_7ffe] {
                            let mut b = Bw::new();
                            b.u(2, 3);
                            b.u(12, first);
                            let mut want = first;
                            for j in 0..more {
                                let sh = 12 + 8 * j as u32;
                                b.b(true);
                                if sh >= 60 {
                                    let v = pat >> 60;
                                    b.u(4, v);
                                    want |= v << 60;
                                } else {
                                    let v = pat >> (8 * j) & 0xff;
                                    b.u(8, v);
                                    want |= v << sh;
                                }
                            }
                            if more < 7 {
                                b.b(false);
                            }
                            one(&b, want)?;
                        }
                    }
                }
            }
            Ok(Obs::batch(hash(&k), n, n))
        });
    });
    // booleans, half floats, strings, vectors, arrays, extensions
    ctx.case("bool", || {
        let mut n = 0;
        for v in [false, true] {
            let mut b = Bw::new();
            b.b(v);
            n += field::<bool>(&b, &|r| matches!(r, Ok(x) if *x == v), &|br| bool::read_unconditional(&(), br, &Empty {}))?;
        }
        Ok(Obs::batch(1, n, n))
    });
    ctx.par(64, |k| {
        ctx.case(&format!("f16/{k}"), || {
            let mut n = 0;
            for h in k * 1024..(k + 1) * 1024 {
                let h = h as u16;
                let mut b = Bw::new();
                b.f16(h);
                let w = super::formats::from_f16(h);
                n += field::<f32>(
                    &b,
                    &|r| match r {
                        Ok(x) => w.is_finite() && *x as f64 == w && x.is_sign_negative() == (h > 0x7fff),
                        Err(Error::FloatNaNOrInf) => !w.is_finite(),
                        _ => false,
                    },
                    &|br| f32::read_unconditional(&(), br, &Empty {}),
                )
                .map_err(|e| format!("{h:#06x}: {e}"))?;
            }
            Ok(Obs::batch(hash(&k), n, n))
        });
    });
    let lens: Vec<usize> = [0, 1, 14, 15, 16, 17, 46, 47, 48, 49, 100, 511, 1070, 1071].to_vec();
    ctx.par(lens.len(), |i| {
        let len = lens[i];
        ctx.case(&format!("string/{len}"), || {
            let mut n = 0;
            let s: Vec<u8> = (0..len).map(|i| (i * 7 + 33) as u8 & 0x7f).collect();
            for sel in 0..4 {
                let mut b = Bw::new();
                b.force = Some((0, sel));
                b.string(&s);
                let want = String::from_utf8(s.clone()).unwrap();
                n += field::<String>(&b, &|r| matches!(r, Ok(x) if *x == want), &|br| String::read_unconditional(&(), br, &Empty {}))?;
                if sel + 1 >= b.log[0] {
                    break;
                }
            }
            Ok(Obs::batch(hash(&len), n, n))
        });
    });
    ctx.case("vector", || {
        let mut n = 0;
        let conf = VectorCoder {
            size_coder: U32Coder::Select(U32::Val(0), U32::Val(1), U32::Bits(4), U32::BitsOffset { n: 8, off: 16 }),
            value_coder: U32Coder::Select(U32::Val(3), U32::Bits(2), U32::Bits(5), U32::BitsOffset { n: 3, off: 40 }),
        };
        let codes: Vec<(u64, u32, u64, u32)> = vec![(0, 0, 0, 3), (1, 2, 2, 2), (2, 5, 31, 31), (3, 3, 7, 47), (2, 5, 0, 0)];
        for (sel, w, len) in [(0u64, 0u32, 0usize), (1, 0, 1), (2, 4, 0), (2, 4, 3), (2, 4, 15), (3, 8, 16), (3, 8, 40)] {
            let mut b = Bw::new();
            b.u(2, sel);
            b.u(w, if sel == 3 { len - 16 } else if sel == 2 { len } else { 0 } as u64);
            let mut want = vec![];
            for i in 0..len {
                let c = codes[(i * 3 + len) % codes.len()];
                b.u(2, c.0);
                b.u(c.1, c.2);
                want.push(c.3);
            }
            n += field::<Vec<u32>>(&b, &|r| matches!(r, Ok(x) if *x == want), &|br| Vec::<u32>::read_unconditional(&conf, br, &Empty {}))?;
        }
        let mut b = Bw::new();
        for i in 0..5 {
            b.u(2, codes[i].0);
            b.u(codes[i].1, codes[i].2);
        }
        n += field::<[u32; 5]>(&b, &|r| matches!(r, Ok(x) if *x == [3, 2, 31, 47, 0]), &|br| {
            <[u32; 5]>::read_unconditional(&conf.value_coder, br, &Empty {})
        })?;
        Ok(Obs::batch(2, n, n))
    });
    ctx.case("extensions", || {
        let mut n = 0;
        for mask in [0u64, 1, 2, 3, 5, 0x8000_0000_0000_0000, 0xff, 0x8421] {
            for size in [0u64, 1, 5, 8, 17, 100] {
                let mut b = Bw::new();
                b.u64(mask);
                let mut total = 0;
                for i in 0..64 {
                    if mask >> i & 1 == 1 {
                        b.u64(size + i);
                        total += size + i;
                    }
                }
                for i in 0..total {
                    b.b(i % 3 == 0);
                }
                n += field::<Extensions>(&b, &|r| r.is_ok(), &|br| Extensions::read_unconditional(&(), br, &Empty {}))?;
            }
        }
        // sizes that overflow
        for (a, c) in [(u64::MAX, 1), (u64::MAX - 5, 6), (1 << 63, 1 << 63)] {
            let mut b = Bw::new();
            b.u64(3);
            b.u64(a);
            b.u64(c);
            n += field::<Extensions>(&b, &|r| matches!(r, Err(Error::SizeOverflow)), &|br| Extensions::read_unconditional(&(), br, &Empty {}))?;
        }
        for a in [u64::MAX, 1 << 62, u64::MAX / 2] {
            let mut b = Bw::new();
            b.u64(4);
            b.u64(a);
            n += field::<Extensions>(&b, &|r| r.is_err(), &|br| Extensions::read_unconditional(&(), br, &Empty {}))?;
        }
        Ok(Obs::batch(3, n, n))
    });
}
