//! Two static metrics.
use metriken::*;

pub const NAMES: &[&str] = &["s.one", "s.two"];
#[metric(name = "s.one")]
static ONE: Counter = Counter::new();
#[metric(name = "s.two")]
static TWO: Gauge = Gauge::new();
