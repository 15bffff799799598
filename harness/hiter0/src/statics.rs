//! No static metrics.
pub const NAMES: &[&str] = &[];
