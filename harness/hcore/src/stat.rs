//! Statically declared metrics of every kind.
use metriken::*;
use std::any::Any;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[metric(name = "s.counter", description = "a counter", metadata = { op = "read", unit = "ops" })]
pub static S_COUNTER: Counter = Counter::with_value(5);
#[metric(name = "s.gauge")]
pub static S_GAUGE: Gauge = Gauge::with_value(-7);
#[metric(name = "s.hist", description = "an atomic histogram")]
pub static S_HIST: AtomicHistogram = AtomicHistogram::new(0, 3);
#[metric(name = "s.rwhist")]
pub static S_RWHIST: RwLockHistogram = RwLockHistogram::new(0, 3);
#[metric(name = "s.lazy.counter", metadata = { "" = "", a = "", b = "1", c = "22", "a b" = "x\"y" })]
pub static S_LAZYC: LazyCounter = LazyCounter::new(Counter::default);
#[metric(name = "s.lazy.gauge")]
pub static S_LAZYG: LazyGauge = LazyGauge::new(Gauge::default);
#[metric(name = "s.custom", formatter = custom_fmt, metadata = { k = "v" })]
pub static S_CUSTOM: Custom = Custom::new();

pub fn custom_fmt(e: &MetricEntry, f: Format) -> String {
    match f {
        Format::Simple => format!("custom/{}", e.name()),
        _ => format!("prom/{}", e.name()),
    }
}

pub const STATICS: usize = 7;

/// A metric whose answers are all independent of each other.
pub struct Custom {
    pub bits: AtomicU64, // bit 0 enabled, bit 1 any, bits 2..3 value kind
    pub num: AtomicU64,
}
impl Custom {
    pub const fn new() -> Self {
        Custom { bits: AtomicU64::new(0), num: AtomicU64::new(0) }
    }
    pub fn set(&self, enabled: bool, any: bool, kind: u64, num: u64) {
        self.bits.store(enabled as u64 | (any as u64) << 1 | kind << 2, SeqCst);
        self.num.store(num, SeqCst);
    }
}
impl Metric for Custom {
    fn is_enabled(&self) -> bool {
        self.bits.load(SeqCst) & 1 != 0
    }
    fn as_any(&self) -> Option<&dyn Any> {
        if self.bits.load(SeqCst) & 2 != 0 {
            Some(self)
        } else {
            None
        }
    }
    fn value(&self) -> Option<Value<'_>> {
        let n = self.num.load(SeqCst);
        match self.bits.load(SeqCst) >> 2 {
            0 => None,
            1 => Some(Value::Counter(n)),
            2 => Some(Value::Gauge(n as i64)),
            _ => Some(Value::Other(self)),
        }
    }
}

/// Run `f` on the one entry of this name; false unless there is exactly one.
pub fn with_entry(name: &str, mut f: impl FnMut(&MetricEntry)) -> bool {
    let m = metrics();
    let mut n = 0;
    for e in m.iter() {
        if e.name() == name {
            n += 1;
            f(e);
        }
    }
    n == 1
}
