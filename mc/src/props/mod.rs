use crate::engine::PropFn;
mod api;
pub mod compose;
mod delivery;
pub mod formats;
pub mod lossless;
#[cfg(feature = "sched")]
mod sched;
mod simd;
mod bits;
mod color;
mod container;
mod dct;
mod entropy;
mod headers;
mod icc;
mod limits;
mod render;
mod upw;
pub mod vardct;
mod survey;
pub use api::fresh_digest;
pub fn all() -> Vec<(&'static str, &'static str, PropFn)> {
    vec![
        ("S00", "other", survey::run as PropFn),
        ("C01", "model_checking", delivery::c01),
        ("C02", "model_checking", container::c02),
        ("C03", "model_checking", api::c03),
        ("C04", "model_checking", api::c04),
        #[cfg(feature = "sched")]
        ("C05", "model_checking", sched::c05),
        #[cfg(feature = "sched")]
        ("C06", "model_checking", sched::c06),
        ("C07", "model_checking", delivery::c07),
        ("C08", "model_checking", delivery::c08),
        ("C09", "model_checking", api::c09),
        ("C10", "model_checking", formats::c10),
        ("C11", "model_checking", formats::c11),
        ("C12", "model_checking", simd::c12),
        ("C13", "model_checking", entropy::c13),
        ("C14", "model_checking", bits::c14),
        ("C15", "model_checking", headers::c15),
        ("C16", "model_checking", lossless::c16),
        ("C17", "model_checking", compose::c17),
        ("C18", "model_checking", icc::c18),
        ("C19", "model_checking", color::c19),
        ("C20", "model_checking", dct::c20),
        ("C21", "model_checking", render::c21),
        ("C22", "model_checking", limits::c22),
        ("C24", "model_checking", api::c24),
        ("C25", "model_checking", api::c25),
        ("C26", "model_checking", formats::c26),
        ("C27", "model_checking", vardct::c27),
        ("C28", "model_checking", vardct::c28),
    ]
}
