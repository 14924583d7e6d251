use crate::corpus;
use crate::dec::*;
use crate::engine::*;
pub fn run(ctx: &Ctx) {
    let items = corpus::upto(3_000_000);
    ctx.par(items.len(), |i| {
        let it = &items[i];
        ctx.case(&it.name, || {
            let t = std::time::Instant::now();
            let (o, pk) = peak_alloc(|| oneshot(&it.data, &Opts::default(), FmtSel::F32All));
            println!("{:40} {:8} {:6.1}ms peak {:9} frames {} {:?} len {:?} {}", it.name, it.data.len(), t.elapsed().as_secs_f64()*1e3, pk, o.frames.len(), o.end, o.file_length, o.info.as_ref().map(|x| x[..x.len().min(120)].to_string()).unwrap_or_default());
            Ok(Obs::new(o.digest(), o.steps))
        })
    });
}
