//! Driving the real decoder through scripted environments (input slicing, flushes, skips, runners).
use crate::engine::{Fnv, hash, hash_bytes};
use jxl::api::states::*;
use jxl::api::*;
use std::hash::Hasher;
use std::io::IoSliceMut;

#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    pub adjust_orientation: bool,
    pub render_spot_colors: bool,
    pub coalescing: bool,
    pub skip_preview: bool,
    pub intensity: Option<f32>,
    pub sample_limit: Option<usize>,
    pub high_precision: bool,
    pub premultiply: bool,
    pub scan_only: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            adjust_orientation: true,
            render_spot_colors: true,
            coalescing: true,
            skip_preview: true,
            intensity: None,
            sample_limit: Some(40_000_000),
            high_precision: true,
            premultiply: false,
            scan_only: false,
        }
    }
}
impl Opts {
    pub fn to_jxl(&self) -> JxlDecoderOptions {
        let mut o = JxlDecoderOptions::default();
        o.adjust_orientation = self.adjust_orientation;
        o.render_spot_colors = self.render_spot_colors;
        o.coalescing = self.coalescing;
        o.skip_preview = self.skip_preview;
        o.desired_intensity_target = self.intensity;
        o.sample_limit = self.sample_limit;
        o.high_precision = self.high_precision;
        o.premultiply_output = self.premultiply;
        o.scan_frames_only = self.scan_only;
        o
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum FmtSel {
    /// Colour in f32 (gray or RGB as the image is), every extra channel separately in f32.
    F32All,
    /// Whatever the decoder selects.
    DecoderDefault,
    Explicit(JxlPixelFormat),
}

/// Input whose visible part, read sizes, skip behaviour and size estimates are scripted.
pub struct Script<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub visible: usize,
    /// Largest number of bytes a single read() returns (usize::MAX: no limit).
    pub max_read: usize,
    /// Only the k-th read is short (others full); usize::MAX: all reads obey max_read.
    pub short_at: usize,
    pub avail: Avail,
    pub skip: SkipMode,
    pub reads: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Avail {
    Exact,
    One,
    Huge,
    Half,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SkipMode {
    Native,
    OneByte,
    ViaTraitDefault,
}
impl<'a> Script<'a> {
    pub fn new(data: &'a [u8], visible: usize) -> Self {
        Script {
            data,
            pos: 0,
            visible: visible.min(data.len()),
            max_read: usize::MAX,
            short_at: usize::MAX,
            avail: Avail::Exact,
            skip: SkipMode::Native,
            reads: 0,
        }
    }
    fn rem(&self) -> usize {
        self.visible - self.pos
    }
}
/// The provided (default) implementation of `skip`, reached through a type that only implements
/// the required methods.
struct DefaultSkip<'b, 'a>(&'b mut Script<'a>);
impl JxlBitstreamInput for DefaultSkip<'_, '_> {
    fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
        self.0.available_bytes()
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
        self.0.read(bufs)
    }
}
impl JxlBitstreamInput for Script<'_> {
    fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
        let r = self.rem();
        Ok(match self.avail {
            Avail::Exact => r,
            Avail::One => r.min(1),
            Avail::Huge => {
                if r > 0 {
                    r + 100_000
                } else {
                    0
                }
            }
            Avail::Half => r.div_ceil(2),
        })
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
        let mut cap = self.rem();
        if self.short_at == usize::MAX || self.reads == self.short_at {
            cap = cap.min(self.max_read);
        }
        self.reads += 1;
        let mut n = 0;
        for b in bufs {
            let k = b.len().min(cap - n);
            b[..k].copy_from_slice(&self.data[self.pos + n..self.pos + n + k]);
            n += k;
            if n == cap {
                break;
            }
        }
        self.pos += n;
        Ok(n)
    }
    fn skip(&mut self, bytes: usize) -> Result<usize, std::io::Error> {
        match self.skip {
            SkipMode::Native => {
                let n = bytes.min(self.rem());
                self.pos += n;
                Ok(n)
            }
            SkipMode::OneByte => {
                let n = bytes.min(self.rem()).min(1);
                self.pos += n;
                Ok(n)
            }
            SkipMode::ViaTraitDefault => DefaultSkip(self).skip(bytes),
        }
    }
}

pub enum Dec {
    Init(JxlDecoder<Initialized>),
    Img(JxlDecoder<WithImageInfo>),
    Frm(JxlDecoder<WithFrameInfo>),
    Gone,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FrameOut {
    pub name: String,
    pub duration: Option<f64>,
    pub size: (usize, usize),
    /// One buffer per requested output; empty when the frame was skipped.
    pub bufs: Vec<Vec<u8>>,
    pub skipped: bool,
}
impl FrameOut {
    pub fn digest(&self) -> u64 {
        let mut h = Fnv::default();
        h.write(self.name.as_bytes());
        h.write_u64(self.duration.unwrap_or(-1.0).to_bits());
        h.write_usize(self.size.0);
        h.write_usize(self.size.1);
        for b in &self.bufs {
            h.write(b);
        }
        h.finish()
    }
    pub fn f32s(&self, i: usize) -> Vec<f32> {
        self.bufs[i].chunks_exact(4).map(|c| f32::from_ne_bytes(c.try_into().unwrap())).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    NeedMore(usize),
    Error(String),
}
impl End {
    pub fn class(&self) -> &'static str {
        match self {
            End::Done => "done",
            End::NeedMore(_) => "more",
            End::Error(_) => "error",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub info: Option<String>,
    pub frames: Vec<FrameOut>,
    pub scanned: Vec<String>,
    pub file_length: Option<u64>,
    pub has_more: Option<bool>,
    pub end: End,
    pub steps: u64,
}
impl Outcome {
    pub fn digest(&self) -> u64 {
        let mut h = Fnv::default();
        h.write_u64(hash(&self.info));
        for f in &self.frames {
            h.write_u64(f.digest());
        }
        for s in &self.scanned {
            h.write(s.as_bytes());
        }
        h.write_u64(hash(&self.file_length));
        h.write_u64(hash(self.end.class()));
        h.finish()
    }
    /// Describes the first difference with `o` in what a user can observe.
    pub fn diff(&self, o: &Outcome) -> Option<String> {
        if self.info != o.info {
            return Some(format!("image info differs: {:?} vs {:?}", short(&self.info), short(&o.info)));
        }
        if self.end.class() != o.end.class() {
            return Some(format!("decoding ends with {:?} vs {:?}", self.end, o.end));
        }
        if self.end == End::Done || self.frames.len() != o.frames.len() {
            if self.frames.len() != o.frames.len() {
                return Some(format!("{} frames vs {}", self.frames.len(), o.frames.len()));
            }
        }
        for (i, (a, b)) in self.frames.iter().zip(&o.frames).enumerate() {
            if let Some(d) = frame_diff(a, b) {
                return Some(format!("frame {i}: {d}"));
            }
        }
        if self.scanned != o.scanned {
            return Some(format!("scanned frames differ: {:?} vs {:?}", self.scanned, o.scanned));
        }
        if self.file_length != o.file_length {
            return Some(format!("file length {:?} vs {:?}", self.file_length, o.file_length));
        }
        if self.has_more != o.has_more {
            return Some(format!("has_more_frames {:?} vs {:?}", self.has_more, o.has_more));
        }
        None
    }
}
fn short(s: &Option<String>) -> String {
    s.as_ref().map(|x| x.chars().take(300).collect()).unwrap_or("none".into())
}
pub fn frame_diff(a: &FrameOut, b: &FrameOut) -> Option<String> {
    if a.name != b.name || a.duration != b.duration || a.size != b.size {
        return Some(format!(
            "header differs: {:?}/{:?}/{:?} vs {:?}/{:?}/{:?}",
            a.name, a.duration, a.size, b.name, b.duration, b.size
        ));
    }
    if a.skipped || b.skipped {
        return None;
    }
    if a.bufs.len() != b.bufs.len() {
        return Some("number of buffers differs".into());
    }
    for (c, (x, y)) in a.bufs.iter().zip(&b.bufs).enumerate() {
        if x != y {
            let p = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            let n = x.iter().zip(y).filter(|(p, q)| p != q).count();
            return Some(format!(
                "pixels differ in buffer {c}: {n} bytes, first at byte {p} ({:?} vs {:?})",
                &x[p & !3..(p + 4).min(x.len())],
                &y[p & !3..(p + 4).min(y.len())]
            ));
        }
    }
    None
}

pub fn info_string<'a>(d: &JxlDecoder<WithImageInfo>) -> String {
    let b = d.basic_info();
    let prof = |p: &JxlColorProfile| match p {
        JxlColorProfile::Icc(v) => format!("icc[{}]:{:x}", v.len(), hash_bytes(v)),
        JxlColorProfile::Simple(e) => format!("{e:?}"),
    };
    format!(
        "{:?} {:?} {:?} {:?} {:?} {} [{} {} {} {}] {:?} | {} | {} | {:?}",
        b.size,
        b.bit_depth,
        b.orientation,
        b.extra_channels,
        b.animation,
        b.uses_original_profile,
        b.tone_mapping.intensity_target,
        b.tone_mapping.min_nits,
        b.tone_mapping.relative_to_max_display,
        b.tone_mapping.linear_below,
        b.preview_size,
        prof(d.embedded_color_profile()),
        prof(d.output_color_profile()),
        d.current_pixel_format(),
    )
}
pub fn scan_string(f: &VisibleFrameInfo) -> String {
    format!(
        "#{} {}ms {}t @{} last={} key={} start={} skip={} name={:?}",
        f.index,
        f.duration_ms,
        f.duration_ticks,
        f.file_offset,
        f.is_last,
        f.is_keyframe,
        f.seek_target.decode_start_file_offset,
        f.seek_target.visible_frames_to_skip,
        f.name
    )
}

/// Output buffers for one frame in the current pixel format.
pub struct Bufs {
    pub data: Vec<Vec<u8>>,
    pub rows: usize,
    pub row_bytes: Vec<usize>,
    pub strides: Vec<usize>,
}
impl Bufs {
    pub fn for_format(f: &JxlPixelFormat, size: (usize, usize), pad: usize, fill: u8) -> Bufs {
        let mut row_bytes = vec![];
        if let Some(c) = &f.color_data_format {
            row_bytes.push(size.0 * c.bytes_per_sample() * f.color_type.samples_per_pixel());
        }
        for e in f.extra_channel_format.iter().flatten() {
            row_bytes.push(size.0 * e.bytes_per_sample());
        }
        let strides: Vec<usize> = row_bytes.iter().map(|r| r + pad).collect();
        Bufs {
            data: strides.iter().map(|s| vec![fill; s * size.1]).collect(),
            rows: size.1,
            row_bytes,
            strides,
        }
    }
    pub fn outs(&mut self) -> Vec<JxlOutputBuffer<'_>> {
        let rows = self.rows;
        self.data
            .iter_mut()
            .zip(self.row_bytes.iter().zip(&self.strides))
            .map(|(d, (r, s))| JxlOutputBuffer::new_with_stride(d, rows, *r, *s))
            .collect()
    }
}

pub fn f32_format(d: &JxlDecoder<WithImageInfo>) -> JxlPixelFormat {
    let gray = d.current_pixel_format().color_type.is_grayscale();
    let n = d.basic_info().extra_channels.len();
    JxlPixelFormat {
        color_type: if gray { JxlColorType::Grayscale } else { JxlColorType::Rgb },
        color_data_format: Some(JxlDataFormat::f32()),
        extra_channel_format: vec![Some(JxlDataFormat::f32()); n],
    }
}

/// What to do at the n-th point where the decoder asks for more input inside a frame.
pub type FlushPlan<'a> = &'a dyn Fn(usize) -> bool;

pub struct Plan<'a> {
    pub opts: Opts,
    pub fmt: FmtSel,
    pub flush: FlushPlan<'a>,
    pub skip: &'a dyn Fn(usize) -> bool,
    pub runner: Option<&'a mut dyn JxlParallelRunner>,
    pub fill: u8,
    pub pad: usize,
    /// Called after each flush with (frame index, returned value, buffers before, buffers after).
    pub on_flush: Option<&'a mut dyn FnMut(usize, bool, &[Vec<u8>], &[Vec<u8>])>,
    /// Stop after this many visible frames.
    pub max_frames: usize,
    /// Called at every request for more input with (size_hint, bytes not yet delivered).
    pub on_need: Option<&'a mut dyn FnMut(usize, usize)>,
    /// Frames to be skipped are first decoded until this many requests for more input were made
    /// inside the frame.
    pub skip_after_needs: usize,
}
pub fn never(_: usize) -> bool {
    false
}
impl<'a> Plan<'a> {
    pub fn new(opts: &Opts) -> Plan<'a> {
        Plan {
            opts: opts.clone(),
            fmt: FmtSel::F32All,
            flush: &never,
            skip: &never,
            runner: None,
            fill: 0,
            pad: 0,
            on_flush: None,
            max_frames: usize::MAX,
            on_need: None,
            skip_after_needs: 0,
        }
    }
    pub fn fmt(mut self, f: FmtSel) -> Self {
        self.fmt = f;
        self
    }
}

/// Feeds `script` up to the successive `cuts` (absolute visible lengths); the last one must be the
/// whole input for a complete decode.
pub fn run(plan: &mut Plan, script: &mut Script, cuts: &[usize]) -> Outcome {
    let d = Dec::Init(JxlDecoder::new(plan.opts.to_jxl()));
    run_from(d, plan, script, cuts).0
}

pub fn run_from(mut d: Dec, plan: &mut Plan, script: &mut Script, cuts: &[usize]) -> (Outcome, Dec) {
    let mut out = Outcome {
        info: None,
        frames: vec![],
        scanned: vec![],
        file_length: None,
        has_more: None,
        end: End::Done,
        steps: 0,
    };
    let mut cut = 0;
    let mut feed = |s: &mut Script| -> bool {
        while cut < cuts.len() {
            let c = cuts[cut].min(s.data.len());
            cut += 1;
            if c > s.visible {
                s.visible = c;
                return true;
            }
        }
        false
    };
    let mut needs = 0usize;
    let mut frame_needs = 0usize;
    let mut bufs: Option<Bufs> = None;
    loop {
        out.steps += 1;
        let cur = std::mem::replace(&mut d, Dec::Gone);
        let more: Option<usize> = match cur {
            Dec::Init(x) => match x.process(script, plan.runner.as_deref_mut().map(|r| r as _)) {
                Ok(ProcessingResult::Complete { result }) => {
                    let mut r = result;
                    match &plan.fmt {
                        FmtSel::F32All => {
                            let f = f32_format(&r);
                            r.set_pixel_format(f)
                        }
                        FmtSel::DecoderDefault => {}
                        FmtSel::Explicit(f) => r.set_pixel_format(f.clone()),
                    }
                    out.info = Some(info_string(&r));
                    d = Dec::Img(r);
                    None
                }
                Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                    d = Dec::Init(fallback);
                    Some(size_hint)
                }
                Err(e) => {
                    out.end = End::Error(format!("{e:?}"));
                    return (out, d);
                }
            },
            Dec::Img(x) => {
                if !x.has_more_frames() || out.frames.len() >= plan.max_frames {
                    out.has_more = Some(x.has_more_frames());
                    out.file_length = x.file_length();
                    out.scanned = x.scanned_frames().iter().map(scan_string).collect();
                    out.end = End::Done;
                    return (out, Dec::Img(x));
                }
                match x.process(script, plan.runner.as_deref_mut().map(|r| r as _)) {
                    Ok(ProcessingResult::Complete { result }) => {
                        let h = result.frame_header();
                        out.frames.push(FrameOut {
                            name: h.name,
                            duration: h.duration,
                            size: h.size,
                            bufs: vec![],
                            skipped: true,
                        });
                        bufs = None;
                        frame_needs = 0;
                        d = Dec::Frm(result);
                        None
                    }
                    Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                        // has_more_frames may have become false: the file ended after an invisible frame
                        d = Dec::Img(fallback);
                        Some(size_hint)
                    }
                    Err(e) => {
                        out.end = End::Error(format!("{e:?}"));
                        return (out, d);
                    }
                }
            }
            Dec::Frm(mut x) => {
                let fi = out.frames.len() - 1;
                if plan.opts.scan_only || ((plan.skip)(fi) && frame_needs >= plan.skip_after_needs) {
                    match x.skip_frame(script) {
                        Ok(ProcessingResult::Complete { result }) => {
                            d = Dec::Img(result);
                            None
                        }
                        Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                            d = Dec::Frm(fallback);
                            Some(size_hint)
                        }
                        Err(e) => {
                            out.end = End::Error(format!("{e:?}"));
                            return (out, d);
                        }
                    }
                } else {
                    let size = out.frames[fi].size;
                    if bufs.is_none() {
                        let f = match &plan.fmt {
                            FmtSel::Explicit(f) => f.clone(),
                            _ => FMT.with(|c| c.borrow().clone()).unwrap_or_else(|| unreachable!()),
                        };
                        bufs = Some(Bufs::for_format(&f, size, plan.pad, plan.fill));
                    }
                    let b = bufs.as_mut().unwrap();
                    let r = {
                        let mut o = b.outs();
                        x.process(script, &mut o, plan.runner.as_deref_mut().map(|r| r as _))
                    };
                    match r {
                        Ok(ProcessingResult::Complete { result }) => {
                            out.frames[fi].bufs = std::mem::take(&mut b.data);
                            out.frames[fi].skipped = false;
                            bufs = None;
                            d = Dec::Img(result);
                            None
                        }
                        Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                            x = fallback;
                            if (plan.flush)(needs) {
                                let before = b.data.clone();
                                let r = {
                                    let mut o = b.outs();
                                    x.flush_pixels(&mut o, plan.runner.as_deref_mut().map(|r| r as _))
                                };
                                out.steps += 1;
                                match r {
                                    Ok(v) => {
                                        if let Some(f) = plan.on_flush.as_mut() {
                                            f(fi, v, &before, &b.data)
                                        }
                                    }
                                    Err(e) => {
                                        out.end = End::Error(format!("flush: {e:?}"));
                                        return (out, d);
                                    }
                                }
                            }
                            d = Dec::Frm(x);
                            Some(size_hint)
                        }
                        Err(e) => {
                            out.end = End::Error(format!("{e:?}"));
                            return (out, d);
                        }
                    }
                }
            }
            Dec::Gone => unreachable!(),
        };
        if let Dec::Img(x) = &d {
            FMT.with(|c| *c.borrow_mut() = Some(x.current_pixel_format().clone()));
        }
        if let Some(h) = more {
            needs += 1;
            frame_needs += 1;
            if let Some(f) = plan.on_need.as_mut() {
                f(h, script.data.len() - script.visible)
            }
            if !feed(script) {
                out.end = End::NeedMore(h);
                match &d {
                    Dec::Img(x) => {
                        out.has_more = Some(x.has_more_frames());
                        out.scanned = x.scanned_frames().iter().map(scan_string).collect();
                    }
                    Dec::Frm(x) => {
                        out.scanned = x.scanned_frames().iter().map(scan_string).collect();
                        if let Some(b) = bufs {
                            let fi = out.frames.len() - 1;
                            out.frames[fi].bufs = b.data;
                        }
                    }
                    _ => {}
                }
                return (out, d);
            }
        }
    }
}
thread_local! {
    static FMT: std::cell::RefCell<Option<JxlPixelFormat>> = const { std::cell::RefCell::new(None) };
}

/// Whole-input decode through any input type (all bytes offered at once).
pub fn whole_with<I: JxlBitstreamInput>(opts: &Opts, input: &mut I) -> Outcome {
    let mut out = Outcome {
        info: None,
        frames: vec![],
        scanned: vec![],
        file_length: None,
        has_more: None,
        end: End::Done,
        steps: 0,
    };
    macro_rules! step {
        ($e:expr, $x:expr) => {{
            out.steps += 1;
            match $e {
                Ok(ProcessingResult::Complete { result }) => result,
                Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                    out.end = End::NeedMore(size_hint);
                    ($x)(&fallback, &mut out);
                    return out;
                }
                Err(e) => {
                    out.end = End::Error(format!("{e:?}"));
                    return out;
                }
            }
        }};
    }
    let mut x = step!(JxlDecoder::new(opts.to_jxl()).process(input, None), |_: &JxlDecoder<Initialized>, _: &mut Outcome| ());
    let f = f32_format(&x);
    x.set_pixel_format(f.clone());
    out.info = Some(info_string(&x));
    while x.has_more_frames() {
        let y = step!(x.process(input, None), |f: &JxlDecoder<WithImageInfo>, o: &mut Outcome| {
            o.has_more = Some(f.has_more_frames());
            o.scanned = f.scanned_frames().iter().map(scan_string).collect();
        });
        let h = y.frame_header();
        out.frames.push(FrameOut { name: h.name, duration: h.duration, size: h.size, bufs: vec![], skipped: true });
        let fi = out.frames.len() - 1;
        let scans = |f: &JxlDecoder<WithFrameInfo>, o: &mut Outcome| {
            o.scanned = f.scanned_frames().iter().map(scan_string).collect();
        };
        if opts.scan_only {
            x = step!(y.skip_frame(input), scans);
        } else {
            let mut b = Bufs::for_format(&f, h.size, 0, 0);
            x = step!(
                {
                    let mut o = b.outs();
                    y.process(input, &mut o, None)
                },
                |f: &JxlDecoder<WithFrameInfo>, o: &mut Outcome| {
                    o.frames[fi].bufs = b.data.clone();
                    scans(f, o)
                }
            );
            out.frames[fi].bufs = b.data;
            out.frames[fi].skipped = false;
        }
    }
    out.has_more = Some(false);
    out.file_length = x.file_length();
    out.scanned = x.scanned_frames().iter().map(scan_string).collect();
    out
}

/// Plain one-shot decode.
pub fn oneshot(data: &[u8], opts: &Opts, fmt: FmtSel) -> Outcome {
    // for looking at the file of a replayed case
    static DUMP: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if let Some(d) = DUMP.get_or_init(|| std::env::var("JXLMC_DUMP").ok()) {
        let k = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let _ = std::fs::write(format!("{d}/{k}.jxl"), data);
    }
    let mut s = Script::new(data, data.len());
    run(&mut Plan::new(opts).fmt(fmt), &mut s, &[data.len()])
}
