#![allow(dead_code)]
mod corpus;
mod dec;
mod enc;
mod engine;
mod genfiles;
mod props;
mod seeds;

use engine::*;

#[global_allocator]
static GLOBAL: CountingAlloc = CountingAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |p: &str| props.iter().find(|x| x.0 == p).copied();
    let tier = |t: Option<&String>| {
        if t.map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => match a.get(2).and_then(|p| find(p)) {
            Some((id, level, _)) => parent(id, tier(a.get(3)), level),
            None => 2,
        },
        Some("worker") => match a.get(2).and_then(|p| find(p)) {
            Some((id, _, f)) => worker(
                id,
                f,
                tier(a.get(3)),
                std::env::var("JXLMC_FILTER").ok(),
                std::env::var("JXLMC_SKIP")
                    .map(|s| s.split('\x1f').map(|x| x.to_string()).collect())
                    .unwrap_or_default(),
                std::path::Path::new(&a[4]),
            ),
            None => 2,
        },
        Some("replay") => replay(&a[2], &props),
        Some("list") => {
            for p in &props {
                println!("{}", p.0);
            }
            0
        }
        Some("gen") => {
            for (n, d) in genfiles::files() {
                let o = dec::oneshot(&d, &dec::Opts::default(), dec::FmtSel::F32All);
                println!("{n} {} bytes: {:?} frames {} len {:?}", d.len(), o.end, o.frames.len(), o.file_length);
                if let Some(dir) = a.get(2) {
                    std::fs::write(format!("{dir}/{}.jxl", n.replace("gen:", "")), &d).unwrap();
                }
            }
            0
        }
        Some("digest") => {
            props::fresh_digest(&a[2]);
            0
        }
        Some("dump") => {
            corpus::dump(&a[2]);
            0
        }
        _ => {
            eprintln!("usage: jxlmc check|replay|list");
            2
        }
    };
    std::process::exit(code);
}
