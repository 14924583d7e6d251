//! Sample files of the repository used as seeds of explorations.
use std::path::PathBuf;

#[derive(Clone)]
pub struct Item {
    pub name: String,
    pub data: Vec<u8>,
}

fn walk(d: &str, v: &mut Vec<PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(p.to_str().unwrap(), v)
            } else if p.extension().is_some_and(|x| x == "jxl") {
                v.push(p)
            }
        }
    }
}

/// All .jxl files of the repository up to `max` bytes, smallest first.
pub fn upto(max: usize) -> Vec<Item> {
    let mut v = vec![];
    walk("/repo/jxl/resources/test", &mut v);
    walk("/repo/jxl/tests/testdata", &mut v);
    let mut r: Vec<Item> = v
        .into_iter()
        .filter_map(|p| {
            let m = std::fs::metadata(&p).ok()?;
            if m.len() as usize > max {
                return None;
            }
            Some(Item {
                name: p.file_stem()?.to_str()?.to_string(),
                data: std::fs::read(&p).ok()?,
            })
        })
        .collect();
    r.sort_by(|a, b| (a.data.len(), &a.name).cmp(&(b.data.len(), &b.name)));
    r
}
pub fn get(name: &str) -> Option<Item> {
    upto(usize::MAX).into_iter().find(|i| i.name == name)
}

pub fn dump(file: &str) {
    let d = std::fs::read(file).unwrap();
    let o = crate::dec::oneshot(&d, &Default::default(), crate::dec::FmtSel::F32All);
    println!("{:?}\n{:?}\nframes {} len {:?}", o.info, o.end, o.frames.len(), o.file_length);
    for s in &o.scanned {
        println!("  {s}");
    }
}
