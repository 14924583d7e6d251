//! Files used as starting points of the API-level explorations, each with its reference decode.
use crate::corpus;
use crate::dec::*;
use crate::engine::*;
use crate::genfiles;

pub struct Seed {
    pub name: String,
    pub data: Vec<u8>,
    pub full: Outcome,
    /// Deterministic estimate of the cost of one decode, in microseconds.
    pub cost: u64,
}
impl Seed {
    pub fn done(&self) -> bool {
        self.full.end == End::Done
    }
    /// Whether the file keeps parts of the codestream out of order.
    pub fn out_of_order(&self) -> bool {
        if self.data.first() != Some(&0) {
            return false;
        }
        let (mut p, mut want) = (0, 0);
        while p + 12 <= self.n() {
            let len = u32::from_be_bytes(self.data[p..p + 4].try_into().unwrap()) as u64;
            let (len, h) = match len {
                0 => return false,
                1 if p + 20 <= self.n() => (u64::from_be_bytes(self.data[p + 8..p + 16].try_into().unwrap()), 16),
                1 => return false,
                l => (l, 8),
            };
            if &self.data[p + 4..p + 8] == b"jxlp" {
                let q = p + h;
                if u32::from_be_bytes(self.data[q..q + 4].try_into().unwrap()) & 0x7fff_ffff != want {
                    return true;
                }
                want += 1;
            }
            p = p.saturating_add(len.max(8) as usize);
        }
        false
    }
    pub fn n(&self) -> usize {
        self.data.len()
    }
}
pub fn make(name: &str, data: Vec<u8>, opts: &Opts) -> Seed {
    let full = oneshot(&data, opts, FmtSel::F32All);
    let out: usize = full.frames.iter().map(|f| f.bufs.iter().map(|b| b.len()).sum::<usize>()).sum();
    let cost = 30 + out as u64 / 60 + data.len() as u64 / 10;
    Seed { name: name.to_string(), data, full, cost }
}
/// Corpus and generated files whose estimated decode cost is at most `max_cost` microseconds.
pub fn all(ctx: &Ctx, max_bytes: usize, max_cost: u64, opts: &Opts) -> Vec<Seed> {
    let mut items = corpus::upto(max_bytes);
    items.extend(genfiles::files().into_iter().filter(|f| f.1.len() <= max_bytes).map(|(name, data)| corpus::Item { name, data }));
    let r = std::sync::Mutex::new(vec![]);
    ctx.par(items.len(), |i| {
        ctx.case_always(&format!("seed/{}", items[i].name), || {
            let s = make(&items[i].name, items[i].data.clone(), opts);
            let o = Obs::new(s.full.digest(), s.full.steps);
            if s.cost <= max_cost && s.full.info.is_some() {
                r.lock().unwrap().push(s)
            }
            Ok(o)
        });
    });
    let mut v = r.into_inner().unwrap();
    v.sort_by(|a, b| (a.n(), &a.name).cmp(&(b.n(), &b.name)));
    v
}
pub fn valid(ctx: &Ctx, max_bytes: usize, max_cost: u64, opts: &Opts) -> Vec<Seed> {
    all(ctx, max_bytes, max_cost, opts).into_iter().filter(|s| s.done()).collect()
}
