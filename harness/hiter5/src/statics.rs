//! Five static metrics.
use metriken::*;

pub const NAMES: &[&str] = &["s.a", "s.b", "s.c", "s.d", "s.e"];
#[metric(name = "s.a")]
static A: Counter = Counter::new();
#[metric(name = "s.b")]
static B: Counter = Counter::new();
#[metric(name = "s.c")]
static C: Counter = Counter::new();
#[metric(name = "s.d")]
static D: Counter = Counter::new();
#[metric(name = "s.e")]
static E: Counter = Counter::new();
