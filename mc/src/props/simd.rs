//! C12: every vector operation, on every instruction-set level, for every combination of values
//! of an alphabet in every lane, against its scalar definition.
use crate::engine::*;
use crate::props::formats::{from_f16, to_f16};
use jxl_simd::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

type V<D> = <D as SimdDescriptor>::F32Vec;
type I<D> = <D as SimdDescriptor>::I32Vec;
type Res = Result<(), String>;
const PAD: usize = 19;
/// Numbers including the special ones; not-a-number only where an operation is defined on bits.
fn floats(big: bool) -> Vec<f32> {
    let mut v = vec![
        0.0f32, 1.0, 0.5, 1.5, 2.5, 0.49999997, 0.75, 2.0, 3.0, 127.0, 128.5, 254.49998, 255.0, 65535.0, 0.1, 1e-3,
        f32::MIN_POSITIVE, 1e-40, f32::from_bits(1), 8388607.5, 8388608.0, 16777217.0, 2147483520.0, 1e10, f32::MAX, f32::INFINITY,
    ];
    if big {
        v.extend([0.25, 0.99999994, 1.0000001, 6.1e-5, 6.097e-5, 65504.0, 65520.0, 4194303.75, 1e20, 1e-20, 3.4e19, 1.17e-38, 7.0, 100.25]);
    }
    let n: Vec<f32> = v.iter().map(|x| -x).collect();
    v.extend(n);
    v
}
fn ints(big: bool) -> Vec<i32> {
    let mut v = vec![
        0, 1, -1, 2, -2, 3, 7, -8, 127, 128, 255, 256, -256, 32767, 32768, 65535, 65536, -65537, 0x7fffffff, i32::MIN, i32::MIN + 1,
        0x40000000, -0x40000000, 0x55555555, -0x55555556, 0x00ff00ff, 16777216, 16777217, 0x7fffffbf, 0x12345678,
    ];
    if big {
        v.extend((0..32).map(|k| 1i32 << k));
        v.extend((0..31).map(|k| (1i32 << k) - 1));
        v.extend((0..31).map(|k| -(1i32 << k) - 1));
        v.sort();
        v.dedup();
    }
    v
}
fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// Runs `f` over tuples of `a`, with every tuple in every lane next to different neighbours.
fn lanes<T: Copy>(len: usize, all: &[T], mut f: impl FnMut(&[T]) -> Res) -> Result<u64, String> {
    let mut n = 0;
    let mut buf = Vec::with_capacity(len);
    for off in 0..len {
        for k in (0..all.len()).step_by(len) {
            buf.clear();
            buf.extend((0..len).map(|i| all[(k + i + off) % all.len()]));
            f(&buf)?;
            n += 1;
        }
    }
    Ok(n)
}
fn tuples2<T: Copy>(a: &[T]) -> Vec<(T, T)> {
    a.iter().flat_map(|x| a.iter().map(move |y| (*x, *y))).collect()
}
fn tuples3<T: Copy>(a: &[T]) -> Vec<(T, T, T)> {
    tuples2(a).into_iter().flat_map(|(x, y)| a.iter().map(move |z| (x, y, *z))).collect()
}
struct L<D: SimdDescriptor> {
    d: D,
    name: &'static str,
    big: bool,
}
impl<D: SimdDescriptor> L<D> {
    fn n(&self) -> usize {
        V::<D>::LEN
    }
    fn out(&self, v: V<D>) -> Vec<f32> {
        let mut o = vec![0.0; self.n()];
        v.store(&mut o);
        o
    }
    fn outi(&self, v: I<D>) -> Vec<i32> {
        let mut o = vec![0; self.n()];
        v.store(&mut o);
        o
    }
    fn fff(&self, what: &str, x: &[(f32, f32, f32)], op: impl Fn(D, V<D>, V<D>, V<D>) -> V<D>, ok: impl Fn(f32, f32, f32, f32) -> bool) -> Result<u64, String> {
        lanes(self.n(), x, |t| {
            let a: Vec<f32> = t.iter().map(|x| x.0).collect();
            let b: Vec<f32> = t.iter().map(|x| x.1).collect();
            let c: Vec<f32> = t.iter().map(|x| x.2).collect();
            let d = self.d;
            let r = d.call(|d| op(d, V::<D>::load(d, &a), V::<D>::load(d, &b), V::<D>::load(d, &c)));
            for (i, r) in self.out(r).into_iter().enumerate() {
                if !ok(a[i], b[i], c[i], r) {
                    return Err(format!("{what}({:?}, {:?}, {:?}) = {r:?} in lane {i}", a[i], b[i], c[i]));
                }
            }
            Ok(())
        })
    }
    fn ii(&self, what: &str, x: &[(i32, i32)], op: impl Fn(D, I<D>, I<D>) -> I<D>, want: impl Fn(i32, i32) -> i32) -> Result<u64, String> {
        lanes(self.n(), x, |t| {
            let a: Vec<i32> = t.iter().map(|x| x.0).collect();
            let b: Vec<i32> = t.iter().map(|x| x.1).collect();
            let r = self.d.call(|d| op(d, I::<D>::load(d, &a), I::<D>::load(d, &b)));
            for (i, r) in self.outi(r).into_iter().enumerate() {
                if r != want(a[i], b[i]) {
                    return Err(format!("{what}({}, {}) = {r} in lane {i}, not {}", a[i], b[i], want(a[i], b[i])));
                }
            }
            Ok(())
        })
    }
    fn arithmetic(&self) -> Result<u64, String> {
        let a = floats(self.big);
        let x: Vec<_> = tuples2(&a).into_iter().map(|(x, y)| (x, y, 0.0)).collect();
        let mut n = 0;
        n += self.fff("add", &x, |_, a, b, _| a + b, |a, b, _, r| same(r, a + b))?;
        n += self.fff("sub", &x, |_, a, b, _| a - b, |a, b, _, r| same(r, a - b))?;
        n += self.fff("mul", &x, |_, a, b, _| a * b, |a, b, _, r| same(r, a * b))?;
        n += self.fff("div", &x, |_, a, b, _| a / b, |a, b, _, r| same(r, a / b))?;
        n += self.fff("add_assign", &x, |_, mut a, b, _| { a += b; a }, |a, b, _, r| same(r, a + b))?;
        n += self.fff("sub_assign", &x, |_, mut a, b, _| { a -= b; a }, |a, b, _, r| same(r, a - b))?;
        n += self.fff("mul_assign", &x, |_, mut a, b, _| { a *= b; a }, |a, b, _, r| same(r, a * b))?;
        n += self.fff("div_assign", &x, |_, mut a, b, _| { a /= b; a }, |a, b, _, r| same(r, a / b))?;
        n += self.fff("max", &x, |_, a, b, _| a.max(b), |a, b, _, r| r == if a > b { a } else { b })?;
        n += self.fff("min", &x, |_, a, b, _| a.min(b), |a, b, _, r| r == if a < b { a } else { b })?;
        n += self.fff("copysign", &x, |_, a, b, _| a.copysign(b), |a, b, _, r| same(r, a.copysign(b)))?;
        n += self.fff("abs", &x, |_, a, _, _| a.abs(), |a, _, _, r| same(r, f32::from_bits(a.to_bits() & 0x7fff_ffff)))?;
        n += self.fff("neg", &x, |_, a, _, _| a.neg(), |a, _, _, r| same(r, -a))?;
        n += self.fff("floor", &x, |_, a, _, _| a.floor(), |a, _, _, r| r == a.floor())?;
        n += self.fff("sqrt", &x, |_, a, _, _| a.sqrt(), |a, _, _, r| same(r, a.sqrt()))?;
        n += self.fff("gt+select", &x, |_, a, b, _| a.gt(b).if_then_else_f32(a, b), |a, b, _, r| r.to_bits() == (if a > b { a } else { b }).to_bits())?;
        let s: Vec<f32> = a.iter().copied().step_by(if self.big { 1 } else { 2 }).collect();
        let t = tuples3(&s);
        n += self.fff("mul_add", &t, |_, a, b, c| a.mul_add(b, c), |a, b, c, r| same(r, a.mul_add(b, c)) || same(r, a * b + c))?;
        n += self.fff("neg_mul_add", &t, |_, a, b, c| a.neg_mul_add(b, c), |a, b, c, r| same(r, (-a).mul_add(b, c)) || same(r, c - a * b))?;
        n += self.fff("splat", &x, |d, _, _, _| V::<D>::splat(d, 7.25), |_, _, _, r| r == 7.25)?;
        n += self.fff("zero", &x, |d, _, _, _| V::<D>::zero(d), |_, _, _, r| r.to_bits() == 0)?;
        Ok(n)
    }
    fn integers(&self) -> Result<u64, String> {
        let x = tuples2(&ints(self.big));
        let mut n = 0;
        n += self.ii("add", &x, |_, a, b| a + b, |a, b| a.wrapping_add(b))?;
        n += self.ii("sub", &x, |_, a, b| a - b, |a, b| a.wrapping_sub(b))?;
        n += self.ii("mul", &x, |_, a, b| a * b, |a, b| a.wrapping_mul(b))?;
        n += self.ii("and", &x, |_, a, b| a & b, |a, b| a & b)?;
        n += self.ii("or", &x, |_, a, b| a | b, |a, b| a | b)?;
        n += self.ii("xor", &x, |_, a, b| a ^ b, |a, b| a ^ b)?;
        n += self.ii("add_assign", &x, |_, mut a, b| { a += b; a }, |a, b| a.wrapping_add(b))?;
        n += self.ii("sub_assign", &x, |_, mut a, b| { a -= b; a }, |a, b| a.wrapping_sub(b))?;
        n += self.ii("mul_assign", &x, |_, mut a, b| { a *= b; a }, |a, b| a.wrapping_mul(b))?;
        n += self.ii("and_assign", &x, |_, mut a, b| { a &= b; a }, |a, b| a & b)?;
        n += self.ii("or_assign", &x, |_, mut a, b| { a |= b; a }, |a, b| a | b)?;
        n += self.ii("xor_assign", &x, |_, mut a, b| { a ^= b; a }, |a, b| a ^ b)?;
        n += self.ii("mul_wide_take_high", &x, |_, a, b| a.mul_wide_take_high(b), |a, b| ((a as i64 * b as i64) >> 32) as i32)?;
        n += self.ii("gt+select", &x, |_, a, b| a.gt(b).if_then_else_i32(a, b), |a, b| if a > b { a } else { b })?;
        n += self.ii("eq+select", &x, |d, a, b| a.eq(b).if_then_else_i32(I::<D>::splat(d, 5), a), |a, b| if a == b { 5 } else { a })?;
        n += self.ii("lt_zero+select", &x, |_, a, b| a.lt_zero().if_then_else_i32(a, b), |a, b| if a < 0 { a } else { b })?;
        n += self.ii("eq_zero+select", &x, |_, a, b| a.eq_zero().if_then_else_i32(b, a), |a, b| if a == 0 { b } else { a })?;
        n += self.ii("maskz", &x, |_, a, b| a.gt(b).maskz_i32(a), |a, b| if a > b { 0 } else { a })?;
        n += self.ii("mask and", &x, |_, a, b| (a.lt_zero() & b.lt_zero()).if_then_else_i32(a, b), |a, b| if a < 0 && b < 0 { a } else { b })?;
        n += self.ii("mask or", &x, |_, a, b| (a.lt_zero() | b.lt_zero()).if_then_else_i32(a, b), |a, b| if a < 0 || b < 0 { a } else { b })?;
        n += self.ii("mask andnot", &x, |_, a, b| a.lt_zero().andnot(b.lt_zero()).if_then_else_i32(a, b), |a, b| if a >= 0 && b < 0 { a } else { b })?;
        n += self.ii("neg", &x, |_, a, _| -a, |a, _| a.wrapping_neg())?;
        let y: Vec<_> = x.iter().copied().filter(|v| v.0 != i32::MIN).collect();
        n += self.ii("abs", &y, |_, a, _| a.abs(), |a, _| a.abs())?;
        n += self.ii("bits", &x, |_, a, _| a.bitcast_to_f32().bitcast_to_i32().bitcast_to_u32().bitcast_to_i32(), |a, _| a)?;
        macro_rules! shifts {
            ($($k:literal)*) => {$(
                n += self.ii(concat!("shl ", $k), &x, |_, a, _| shl!(a, $k), |a, _| a << $k)?;
                n += self.ii(concat!("shr ", $k), &x, |_, a, _| shr!(a, $k), |a, _| a >> $k)?;
                n += self.ii(concat!("unsigned shr ", $k), &x, |_, a, _| shr!(a.bitcast_to_u32(), $k).bitcast_to_i32(), |a, _| (a as u32 >> $k) as i32)?;
            )*};
        }
        shifts!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
        n += lanes(self.n(), &x, |t| {
            let a: Vec<i32> = t.iter().map(|x| x.0).collect();
            let r = self.d.call(|d| I::<D>::load(d, &a).as_f32());
            for (i, r) in self.out(r).into_iter().enumerate() {
                if r != a[i] as f32 {
                    return Err(format!("as_f32({}) = {r} in lane {i}", a[i]));
                }
            }
            Ok(())
        })?;
        // all(): exactly when no lane is false, whichever lane it is
        for k in 0..1usize << self.n().min(12) {
            let a: Vec<i32> = (0..self.n()).map(|i| if k >> (i % 12) & 1 == 1 { -1 - i as i32 } else { 1 }).collect();
            let w = a.iter().all(|x| *x < 0);
            if self.d.call(|d| I::<D>::load(d, &a).lt_zero().all()) != w {
                return Err(format!("all() of {a:?} < 0 is not {w}"));
            }
            n += 1;
        }
        for k in 0..self.n() {
            for inv in [false, true] {
                let a: Vec<i32> = (0..self.n()).map(|i| if (i == k) != inv { -1 } else { 0 }).collect();
                let w = a.iter().all(|x| *x < 0);
                if self.d.call(|d| I::<D>::load(d, &a).lt_zero().all()) != w {
                    return Err(format!("all() of {a:?} < 0 is not {w}"));
                }
                n += 1;
            }
        }
        Ok(n)
    }
    fn conversions(&self) -> Result<u64, String> {
        let mut n = 0;
        // float to integer: truncation, for everything representable
        let mut v: Vec<f32> = floats(true).into_iter().filter(|x| x.abs() < 2147483648.0).collect();
        for k in -40..40 {
            for q in 0..8 {
                v.push(k as f32 + q as f32 / 8.0);
            }
        }
        n += lanes(self.n(), &v, |t| {
            let r = self.d.call(|d| V::<D>::load(d, t).as_i32());
            for (i, r) in self.outi(r).into_iter().enumerate() {
                if r != t[i] as i32 {
                    return Err(format!("as_i32({:?}) = {r} in lane {i}", t[i]));
                }
            }
            Ok(())
        })?;
        // rounding stores: nearest, either way on ties
        let mut v8: Vec<f32> = (0..256 * 8).map(|k| (k as f32 / 8.0).min(255.0)).collect();
        v8.extend([254.49998, 254.50002, 0.49999997, 1.4999999, 1e-40, -0.0, -0.25, -0.49999]);
        let mut v16: Vec<f32> = (0..65536u32).step_by(if self.big { 1 } else { 7 }).flat_map(|k| [k as f32, (k as f32 + 0.25).min(65535.0), (k as f32 + 0.5).min(65535.0), (k as f32 - 0.4).max(0.0)]).collect();
        v16.extend([65534.496, 65534.504, 1e-40, -0.3]);
        let near = |x: f32, r: f64| (r - x as f64).abs() <= 0.5 && r >= 0.0;
        n += lanes(self.n(), &v8, |t| {
            let mut o = vec![0xa5u8; self.n() + PAD];
            self.d.call(|d| V::<D>::load(d, t).round_store_u8(&mut o[..]));
            for i in 0..self.n() {
                if !near(t[i], o[i] as f64) {
                    return Err(format!("round_store_u8({:?}) = {} in lane {i}", t[i], o[i]));
                }
            }
            if o[self.n()..].iter().any(|x| *x != 0xa5) {
                return Err("round_store_u8 wrote past its lanes".into());
            }
            Ok(())
        })?;
        n += lanes(self.n(), &v16, |t| {
            let mut o = vec![0xa5a5u16; self.n() + PAD];
            self.d.call(|d| V::<D>::load(d, t).round_store_u16(&mut o[..]));
            for i in 0..self.n() {
                if !near(t[i], o[i] as f64) {
                    return Err(format!("round_store_u16({:?}) = {} in lane {i}", t[i], o[i]));
                }
            }
            if o[self.n()..].iter().any(|x| *x != 0xa5a5) {
                return Err("round_store_u16 wrote past its lanes".into());
            }
            Ok(())
        })?;
        let mut iv = ints(true);
        iv.extend((0..65536).step_by(if self.big { 1 } else { 13 }));
        n += lanes(self.n(), &iv, |t| {
            let mut o = vec![0xa5a5u16; self.n() + PAD];
            let mut p = vec![0xa5u8; self.n() + PAD];
            self.d.call(|d| {
                I::<D>::load(d, t).store_u16(&mut o[..]);
                I::<D>::load(d, t).store_u8(&mut p[..]);
            });
            for i in 0..self.n() {
                if o[i] != t[i] as u16 || p[i] != t[i] as u8 {
                    return Err(format!("store_u16/store_u8({}) = {}/{} in lane {i}", t[i], o[i], p[i]));
                }
            }
            if o[self.n()..].iter().any(|x| *x != 0xa5a5) || p[self.n()..].iter().any(|x| *x != 0xa5) {
                return Err("store_u16/store_u8 wrote past its lanes".into());
            }
            Ok(())
        })?;
        // tables: within the precision of a bfloat16, for every index in every lane
        for tab in [[1.0f32, -2.0, 3.5, -0.00321, 1e20, -1e-20, 0.0, 7.123_457], [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8]] {
            let idx: Vec<i32> = (0..64).map(|k| (k * 5 + k / 8) % 8).chain(0..8).collect();
            n += lanes(self.n(), &idx, |t| {
                let r = self.d.call(|d| {
                    let p = V::<D>::prepare_table_bf16_8(d, &tab);
                    V::<D>::table_lookup_bf16_8(d, p, I::<D>::load(d, t))
                });
                for (i, r) in self.out(r).into_iter().enumerate() {
                    let w = tab[t[i] as usize];
                    if (r - w).abs() > w.abs() / 128.0 {
                        return Err(format!("table lookup of entry {} ({w}) = {r} in lane {i}", t[i]));
                    }
                }
                Ok(())
            })?;
        }
        Ok(n)
    }
    /// Loads, stores, interleaving, transposition: a permutation of the elements, nothing else
    /// touched; too short a slice panics.
    fn moves(&self) -> Result<u64, String> {
        let l = self.n();
        let mut n = 0;
        // distinct bit patterns, among them signalling not-a-numbers and denormals
        let pat = |i: usize, s: u32| f32::from_bits((i as u32 + 1).wrapping_mul(0x9e37_79b1).rotate_left(s) ^ s);
        for s in 0..if self.big { 32 } else { 8 } {
            for off in 0..5usize {
                let src: Vec<f32> = (0..off + 8 * l + PAD).map(|i| pat(i, s)).collect();
                let can = f32::from_bits(0x7f81_2345);
                let mut check = |what: &str, w: usize, f: &dyn Fn(D, &[f32], &mut [f32])| -> Res {
                    let mut o = vec![can; off + 8 * l + PAD];
                    self.d.call(|d| f(d, &src[off..], &mut o[off..]));
                    // element k of vector v is element v*l+k of the source; the result is interleaved
                    for (i, x) in o.iter().enumerate() {
                        let want = if i < off || i >= off + w * l { can } else { src[off + ((i - off) % w) * l + (i - off) / w] };
                        if x.to_bits() != want.to_bits() {
                            return Err(format!("{what}: element {} (offset {off})", i as i64 - off as i64));
                        }
                    }
                    n += 1;
                    Ok(())
                };
                let ld = |d: D, s: &[f32], k: usize| V::<D>::load(d, &s[k * l..]);
                check("load/store", 1, &|d, s, o| ld(d, s, 0).store(o))?;
                check("store_interleaved_2", 2, &|d, s, o| V::<D>::store_interleaved_2(ld(d, s, 0), ld(d, s, 1), o))?;
                check("store_interleaved_3", 3, &|d, s, o| V::<D>::store_interleaved_3(ld(d, s, 0), ld(d, s, 1), ld(d, s, 2), o))?;
                check("store_interleaved_4", 4, &|d, s, o| V::<D>::store_interleaved_4(ld(d, s, 0), ld(d, s, 1), ld(d, s, 2), ld(d, s, 3), o))?;
                check("store_interleaved_8", 8, &|d, s, o| {
                    V::<D>::store_interleaved_8(ld(d, s, 0), ld(d, s, 1), ld(d, s, 2), ld(d, s, 3), ld(d, s, 4), ld(d, s, 5), ld(d, s, 6), ld(d, s, 7), o)
                })?;
                // integers
                let srci: Vec<i32> = src.iter().map(|x| x.to_bits() as i32).collect();
                let mut oi = vec![77; off + 2 * l + PAD];
                self.d.call(|d| I::<D>::store_interleaved_2(I::<D>::load(d, &srci[off..]), I::<D>::load(d, &srci[off + l..]), &mut oi[off..]));
                for (i, x) in oi.iter().enumerate() {
                    let want = if i < off || i >= off + 2 * l { 77 } else { srci[off + ((i - off) % 2) * l + (i - off) / 2] };
                    if *x != want {
                        return Err(format!("integer store_interleaved_2: element {}", i as i64 - off as i64));
                    }
                }
                let mut oi = vec![77; off + l + PAD];
                self.d.call(|d| I::<D>::load(d, &srci[off..]).store(&mut oi[off..]));
                if (0..oi.len()).any(|i| oi[i] != if i < off || i >= off + l { 77 } else { srci[i] }) {
                    return Err("integer load/store".into());
                }
                // deinterleaving loads
                let outs = |v: &[V<D>]| -> Vec<u32> { v.iter().flat_map(|x| self.out(*x)).map(|x| x.to_bits()).collect() };
                let want = |w: usize| -> Vec<u32> { (0..w).flat_map(|v| (0..l).map(move |k| (v, k))).map(|(v, k)| src[off + k * w + v].to_bits()).collect() };
                let (a, b) = self.d.call(|d| V::<D>::load_deinterleaved_2(d, &src[off..]));
                if outs(&[a, b]) != want(2) {
                    return Err(format!("load_deinterleaved_2 (offset {off})"));
                }
                let (a, b, c) = self.d.call(|d| V::<D>::load_deinterleaved_3(d, &src[off..]));
                if outs(&[a, b, c]) != want(3) {
                    return Err(format!("load_deinterleaved_3 (offset {off})"));
                }
                let (a, b, c, e) = self.d.call(|d| V::<D>::load_deinterleaved_4(d, &src[off..]));
                if outs(&[a, b, c, e]) != want(4) {
                    return Err(format!("load_deinterleaved_4 (offset {off})"));
                }
                n += 5;
                // transposition with every stride
                for stride in 1..=4usize {
                    let mut m: Vec<f32> = (0..l * ((l - 1) * stride + 1)).map(|i| pat(i, s)).collect();
                    let before = m.clone();
                    {
                        let arr = V::<D>::make_array_slice_mut(&mut m);
                        self.d.call(|d| V::<D>::transpose_square(d, arr, stride));
                    }
                    for r in 0..(l - 1) * stride + 1 {
                        for c in 0..l {
                            let want = if r % stride == 0 { before[c * stride * l + r / stride] } else { before[r * l + c] };
                            if m[r * l + c].to_bits() != want.to_bits() {
                                return Err(format!("transpose_square stride {stride}: row {r} column {c}"));
                            }
                        }
                    }
                    n += 1;
                }
            }
        }
        // 8- and 16-bit vectors
        let (l8, l16) = (D::U8Vec::LEN, D::U16Vec::LEN);
        for s in 0..16usize {
            for off in 0..5usize {
                let a8: Vec<u8> = (0..off + 4 * l8 + PAD).map(|i| ((i * 37 + s * 101) >> (s % 3)) as u8).collect();
                let a16: Vec<u16> = (0..off + 4 * l16 + PAD).map(|i| ((i * 40503 + s * 7919) >> (s % 3)) as u16).collect();
                macro_rules! narrow {
                    ($vec:ty, $a:expr, $l:expr, $t:ty) => {
                        for w in 1..=4usize {
                            let can = <$t>::MAX - 2;
                            let mut o = vec![can; off + w * $l + PAD];
                            self.d.call(|d| {
                                let v: Vec<$vec> = (0..w).map(|k| <$vec>::load(d, &$a[off + k * $l..])).collect();
                                let o = &mut o[off..];
                                match w {
                                    1 => v[0].store(o),
                                    2 => <$vec>::store_interleaved_2(v[0], v[1], o),
                                    3 => <$vec>::store_interleaved_3(v[0], v[1], v[2], o),
                                    _ => <$vec>::store_interleaved_4(v[0], v[1], v[2], v[3], o),
                                }
                            });
                            for (i, x) in o.iter().enumerate() {
                                let want = if i < off || i >= off + w * $l { can } else { $a[off + ((i - off) % w) * $l + (i - off) / w] };
                                if *x != want {
                                    return Err(format!("{} store of {w} vectors: element {}", stringify!($t), i as i64 - off as i64));
                                }
                            }
                            n += 1;
                        }
                        let mut o = vec![0; $l];
                        self.d.call(|d| <$vec>::splat(d, 201).store(&mut o));
                        if o.iter().any(|x| *x != 201) {
                            return Err(format!("{} splat", stringify!($t)));
                        }
                    };
                }
                narrow!(D::U8Vec, a8, l8, u8);
                narrow!(D::U16Vec, a16, l16, u16);
            }
        }
        // slices one element too short
        let mut short = |what: &str, f: &mut dyn FnMut(D)| -> Res {
            n += 1;
            match catch_unwind(AssertUnwindSafe(|| f(self.d))) {
                Ok(()) => Err(format!("{what} accepted a slice that is too short")),
                Err(_) => Ok(()),
            }
        };
        let f = vec![0.5f32; 8 * l + PAD];
        let mut o = vec![0.5f32; 8 * l + PAD];
        let z = V::<D>::zero(self.d);
        let zi = I::<D>::splat(self.d, 0);
        let mut oi = vec![0i32; 8 * l + PAD];
        let mut h = vec![0u16; 64 * 4 + PAD];
        let mut c = vec![0u8; 64 * 4 + PAD];
        short("load", &mut |d| drop(V::<D>::load(d, &f[..l - 1])))?;
        short("store", &mut |_| z.store(&mut o[..l - 1]))?;
        short("load i32", &mut |d| drop(I::<D>::load(d, &oi[..l - 1])))?;
        short("store i32", &mut |_| zi.store(&mut oi[..l - 1]))?;
        short("store_interleaved_2", &mut |_| V::<D>::store_interleaved_2(z, z, &mut o[..2 * l - 1]))?;
        short("store_interleaved_3", &mut |_| V::<D>::store_interleaved_3(z, z, z, &mut o[..3 * l - 1]))?;
        short("store_interleaved_4", &mut |_| V::<D>::store_interleaved_4(z, z, z, z, &mut o[..4 * l - 1]))?;
        short("store_interleaved_8", &mut |_| V::<D>::store_interleaved_8(z, z, z, z, z, z, z, z, &mut o[..8 * l - 1]))?;
        short("i32 store_interleaved_2", &mut |_| I::<D>::store_interleaved_2(zi, zi, &mut oi[..2 * l - 1]))?;
        short("load_deinterleaved_2", &mut |d| drop(V::<D>::load_deinterleaved_2(d, &f[..2 * l - 1])))?;
        short("load_deinterleaved_3", &mut |d| drop(V::<D>::load_deinterleaved_3(d, &f[..3 * l - 1])))?;
        short("load_deinterleaved_4", &mut |d| drop(V::<D>::load_deinterleaved_4(d, &f[..4 * l - 1])))?;
        short("round_store_u8", &mut |_| z.round_store_u8(&mut c[..l - 1]))?;
        short("round_store_u16", &mut |_| z.round_store_u16(&mut h[..l - 1]))?;
        short("load_f16_bits", &mut |d| drop(V::<D>::load_f16_bits(d, &h[..l - 1])))?;
        short("store_f16_bits", &mut |_| z.store_f16_bits(&mut h[..l - 1]))?;
        short("store_u8", &mut |_| zi.store_u8(&mut c[..l - 1]))?;
        short("store_u16", &mut |_| zi.store_u16(&mut h[..l - 1]))?;
        macro_rules! narrow {
            ($vec:ty, $b:expr, $l:expr) => {
                let v = <$vec>::splat(self.d, 0);
                short("narrow load", &mut |d| drop(<$vec>::load(d, &$b[..$l - 1])))?;
                short("narrow store", &mut |_| v.store(&mut $b[..$l - 1]))?;
                short("narrow store 2", &mut |_| <$vec>::store_interleaved_2(v, v, &mut $b[..2 * $l - 1]))?;
                short("narrow store 3", &mut |_| <$vec>::store_interleaved_3(v, v, v, &mut $b[..3 * $l - 1]))?;
                short("narrow store 4", &mut |_| <$vec>::store_interleaved_4(v, v, v, v, &mut $b[..4 * $l - 1]))?;
            };
        }
        narrow!(D::U8Vec, c, l8);
        narrow!(D::U16Vec, h, l16);
        if l > 1 {
            short("make_array_slice", &mut |_| drop(V::<D>::make_array_slice(&f[..2 * l + 1])))?;
            short("make_array_slice_mut", &mut |_| drop(V::<D>::make_array_slice_mut(&mut o[..2 * l + 1])))?;
            short("transpose_square", &mut |d| V::<D>::transpose_square(d, V::<D>::make_array_slice_mut(&mut vec![0.0f32; l * (2 * (l - 1))]), 2))?;
        }
        Ok(n)
    }
    /// Every half float to float, in every lane, and that back again.
    fn half_load(&self) -> Result<u64, String> {
        let all: Vec<u16> = (0..=65535).collect();
        lanes(self.n(), &all, |t| {
            let mut m = t.to_vec();
            m.extend([0x1234; PAD]);
            let r = self.d.call(|d| V::<D>::load_f16_bits(d, &m));
            for (i, r) in self.out(r).into_iter().enumerate() {
                let w = from_f16(t[i]);
                if !(r as f64 == w && r.is_sign_negative() == (t[i] > 0x7fff)) && !(w.is_nan() && r.is_nan()) {
                    return Err(format!("half {:#06x} loads as {r:?}, not {w:?}", t[i]));
                }
            }
            let mut o = vec![0u16; self.n() + PAD];
            self.d.call(|_| r.store_f16_bits(&mut o));
            for i in 0..self.n() {
                if o[i] != t[i] && !from_f16(t[i]).is_nan() {
                    return Err(format!("half {:#06x} stores as {:#06x} after loading", t[i], o[i]));
                }
            }
            if o[self.n()..].iter().any(|x| *x != 0) {
                return Err("store_f16_bits wrote past its lanes".into());
            }
            Ok(())
        })
    }
    /// Floats with bits from `lo` to `hi` in steps to half floats.
    fn half_store(&self, lo: u64, hi: u64, step: usize, extra: &[f32]) -> Result<u64, String> {
        let l = self.n();
        let mut buf = vec![0.0f32; l];
        let mut o = vec![0u16; l];
        let mut n = 0;
        let mut it = (lo..hi).step_by(step).map(|b| f32::from_bits(b as u32)).chain(extra.iter().copied());
        loop {
            let mut k = 0;
            for b in buf.iter_mut() {
                match it.next() {
                    Some(x) => {
                        *b = x;
                        k += 1;
                    }
                    None => break,
                }
            }
            if k == 0 {
                return Ok(n);
            }
            self.d.call(|d| V::<D>::load(d, &buf).store_f16_bits(&mut o));
            for i in 0..k {
                let w = to_f16(buf[i]);
                if o[i] != w && !(buf[i].is_nan() && from_f16(o[i]).is_nan()) {
                    return Err(format!("{:?} ({:#010x}) stores as half {:#06x}, not {w:#06x}", buf[i], buf[i].to_bits(), o[i]));
                }
            }
            n += k as u64;
        }
    }
}
fn level<D: SimdDescriptor>(ctx: &Ctx, name: &'static str) {
    let Some(d) = D::new() else {
        ctx.note(format!("this machine does not offer {name}"));
        return;
    };
    let l = L { d, name, big: !ctx.quick() };
    let parts: [(&str, &(dyn Fn(&L<D>) -> Result<u64, String> + Sync)); 5] = [
        ("arithmetic", &L::arithmetic),
        ("integers", &L::integers),
        ("conversions", &L::conversions),
        ("moves", &L::moves),
        ("half_load", &L::half_load),
    ];
    ctx.par(parts.len(), |i| {
        let (n, f) = parts[i];
        ctx.case(&format!("{}/{n}", l.name), || {
            let k = f(&l).map_err(|e| format!("{}: {e}", l.name))?;
            Ok(Obs::batch(hash(&(l.name, n)), k, k))
        });
    });
    // float -> half: around every half float, and a grid over all floats (all of them, thorough)
    let step = ctx.pick(7, 1);
    let parts = 64u64;
    ctx.par(parts as usize, |i| {
        let lo = (i as u64) << 26;
        ctx.case(&format!("{}/half_store/{i}", l.name), || {
            let mut extra = vec![];
            if i == 0 {
                for h in 0..0x7c00u16 {
                    let (a, b) = (from_f16(h) as f32, from_f16(h + 1).min(65536.0) as f32);
                    let m = (a + b) / 2.0;
                    for x in [a, m] {
                        for k in -2i32..=2 {
                            let v = f32::from_bits((x.to_bits() as i32 + k).max(0) as u32);
                            extra.extend([v, -v]);
                        }
                    }
                }
            }
            let k = l.half_store(lo, lo + (1 << 26), step, &extra).map_err(|e| format!("{}: {e}", l.name))?;
            Ok(Obs::batch(hash(&(l.name, i)), k, k))
        });
    });
}
pub fn c12(ctx: &Ctx) {
    ctx.set_rule("every lane of every vector operation equals the scalar definition; nothing outside the defined elements is touched; too short slices are refused");
    ctx.assume("fused or separate rounding of multiply-add, either direction on rounding ties of integer stores, either zero from min/max, bfloat16 precision of tables");
    level::<ScalarDescriptor>(ctx, "scalar");
    #[cfg(target_arch = "x86_64")]
    {
        level::<Sse42Descriptor>(ctx, "sse42");
        level::<AvxDescriptor>(ctx, "avx");
        level::<Avx512Descriptor>(ctx, "avx512");
    }
}
