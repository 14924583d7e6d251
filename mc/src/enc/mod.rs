//! A small JPEG XL *encoder-side model*: structured descriptions are turned into bits and, independently of the
//! decoder, into the values they stand for.
pub mod ent;
pub mod feat;
pub mod frame;
pub mod head;
pub mod modular;
pub mod vardct;

/// Bit writer. `field` counts the variable-length fields written so that one of them can be forced to another selector.
#[derive(Clone, Default)]
pub struct Bw {
    pub bytes: Vec<u8>,
    pub nbits: usize,
    pub field: usize,
    /// (field number, selector to use if it can represent the value)
    pub force: Option<(usize, usize)>,
    pub force2: Option<(usize, usize)>,
    /// Set when the forced selector was applied and differs from the default choice.
    pub forced: bool,
    /// Log of (field number, number of usable selectors).
    pub log: Vec<usize>,
}
#[derive(Clone, Copy, Debug)]
pub enum D {
    V(u32),
    B(u32, u32),
}
use D::*;
impl Bw {
    pub fn new() -> Bw {
        Bw::default()
    }
    pub fn u(&mut self, n: u32, v: u64) {
        assert!(n == 64 || v >> n == 0, "value {v} does not fit {n} bits");
        for i in 0..n {
            if self.nbits % 8 == 0 {
                self.bytes.push(0);
            }
            if v >> i & 1 == 1 {
                *self.bytes.last_mut().unwrap() |= 1 << (self.nbits % 8);
            }
            self.nbits += 1;
        }
    }
    pub fn b(&mut self, v: bool) {
        self.u(1, v as u64)
    }
    pub fn align(&mut self) {
        self.nbits = self.bytes.len() * 8;
    }
    pub fn append(&mut self, o: &Bw) {
        let mut left = o.nbits;
        for x in &o.bytes {
            let k = left.min(8);
            self.u(k as u32, (*x as u64) & ((1 << k) - 1));
            left -= k;
        }
    }
    /// Picks a selector among the usable ones.
    fn choose(&mut self, usable: &[usize]) -> usize {
        assert!(!usable.is_empty());
        let f = self.field;
        self.field += 1;
        self.log.push(usable.len());
        for (ff, k) in [self.force, self.force2].into_iter().flatten() {
            if ff == f && k < usable.len() {
                self.forced = k != 0;
                return usable[k];
            }
        }
        usable[0]
    }
    /// One of `n` equivalent ways to go on.
    pub fn alt(&mut self, n: usize) -> usize {
        self.choose(&(0..n).collect::<Vec<_>>())
    }
    /// A "fields have their defaults" flag: may be written either way when they do.
    pub fn dflt(&mut self, d: bool) -> bool {
        let all = d && self.alt(2) == 0;
        self.b(all);
        all
    }
    pub fn u32(&mut self, d: [D; 4], v: u32) {
        let usable: Vec<usize> = (0..4)
            .filter(|&i| match d[i] {
                V(x) => x == v,
                B(n, off) => v >= off && (n == 32 || ((v - off) as u64) < 1u64 << n),
            })
            .collect();
        assert!(!usable.is_empty(), "{v} has no code in {d:?}");
        let s = self.choose(&usable);
        self.u(2, s as u64);
        if let B(n, off) = d[s] {
            self.u(n, (v - off) as u64);
        }
    }
    pub fn u64(&mut self, v: u64) {
        let mut usable = vec![];
        if v == 0 {
            usable.push(0)
        }
        if (1..17).contains(&v) {
            usable.push(1)
        }
        if (17..273).contains(&v) {
            usable.push(2)
        }
        usable.push(3);
        let s = self.choose(&usable);
        self.u(2, s as u64);
        match s {
            0 => {}
            1 => self.u(4, v - 1),
            2 => self.u(8, v - 17),
            _ => {
                self.u(12, v & 0xfff);
                let mut v = v >> 12;
                let mut shift = 12;
                while v > 0 {
                    self.b(true);
                    if shift == 60 {
                        self.u(4, v & 15);
                        return;
                    }
                    self.u(8, v & 0xff);
                    v >>= 8;
                    shift += 8;
                }
                self.b(false);
            }
        }
    }
    /// Half float, by bit pattern.
    pub fn f16(&mut self, bits: u16) {
        self.u(16, bits as u64)
    }
    pub fn en(&mut self, v: u32) {
        self.u32([V(0), V(1), B(4, 2), B(6, 18)], v)
    }
    pub fn string(&mut self, s: &[u8]) {
        self.u32([V(0), B(4, 0), B(5, 16), B(10, 48)], s.len() as u32);
        for c in s {
            self.u(8, *c as u64);
        }
    }
    /// `ext`: (bit number, contents in bits) of each extension.
    pub fn extensions(&mut self, ext: &[(u32, Vec<bool>)]) {
        let mask = ext.iter().fold(0u64, |m, (b, _)| m | 1 << b);
        self.u64(mask);
        for (_, c) in ext {
            self.u64(claimed(c.len()));
        }
        for (_, c) in ext {
            for x in c {
                self.b(*x);
            }
        }
    }
}
thread_local! {
    static CLAIM: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
/// Extensions and profiles written by `f` claim to have length `n`.
pub fn claiming<T>(n: u64, f: impl FnOnce() -> T) -> T {
    CLAIM.with(|c| c.set(Some(n)));
    let r = f();
    CLAIM.with(|c| c.set(None));
    r
}
pub fn claimed(n: usize) -> u64 {
    CLAIM.with(|c| c.get()).unwrap_or(n as u64)
}
pub fn pack_signed(v: i32) -> u32 {
    ((v << 1) ^ (v >> 31)) as u32
}
pub fn unpack_signed(v: u32) -> i32 {
    if v & 1 == 0 { (v >> 1) as i32 } else { -((v >> 1) as i64) as i32 - 1 }
}
pub fn ceil_log2(v: u64) -> u32 {
    if v <= 1 { 0 } else { 64 - (v - 1).leading_zeros() }
}
pub fn f32_to_f16(v: f32) -> u16 {
    // exact for the values used here (checked)
    let b = v.to_bits();
    let s = (b >> 16) as u16 & 0x8000;
    if v == 0.0 {
        return s;
    }
    let e = ((b >> 23) & 255) as i32 - 127 + 15;
    assert!((1..31).contains(&e) && b & 0x1fff == 0, "{v} is not a normal half float");
    s | (e as u16) << 10 | ((b >> 13) & 0x3ff) as u16
}
