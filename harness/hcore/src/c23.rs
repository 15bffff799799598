//! C23: entry identity holds for the metric itself and for no other.
use crate::stat::*;
use crate::sym;
use metriken::*;
use std::any::Any;

/// Index of the entries that claim to be `m`, over the whole registry.
fn who(m: &dyn Metric) -> Vec<String> {
    let v = metrics();
    v.iter().filter(|e| e.is(m)).map(|e| e.name().to_string()).collect()
}
fn only(m: &dyn Metric, name: &str) -> bool {
    let w = who(m);
    w.len() == 1 && w[0] == name
}

#[no_mangle]
pub extern "C" fn h_c23_static() {
    let x = sym::u64("x");
    S_COUNTER.set(x);
    S_GAUGE.set(x as i64);
    sym::check(only(&S_COUNTER, "s.counter"), "a static metric is the metric of its own entry only");
    sym::check(only(&S_GAUGE, "s.gauge"), "a static metric is the metric of its own entry only");
    sym::check(only(&S_HIST, "s.hist"), "a static metric is the metric of its own entry only");
    sym::check(only(&S_RWHIST, "s.rwhist"), "a static metric is the metric of its own entry only");
    sym::check(only(&S_LAZYC, "s.lazy.counter"), "a static metric is the metric of its own entry only");
    sym::check(only(&S_LAZYG, "s.lazy.gauge"), "a static metric is the metric of its own entry only");
    sym::check(only(&S_CUSTOM, "s.custom"), "a static metric is the metric of its own entry only");
    // unregistered metrics, same values
    let c = Counter::with_value(x);
    let g = Gauge::with_value(x as i64);
    let l: LazyCounter = LazyCounter::new(Counter::new);
    sym::check(who(&c).is_empty() && who(&g).is_empty() && who(&l).is_empty(), "an unregistered metric is no entry's metric");
    // touching a lazy metric does not change its identity
    S_LAZYC.add(x);
    sym::check(only(&S_LAZYC, "s.lazy.counter"), "a lazy metric keeps its identity when initialised");
    sym::cover("end");
}

fn dynamic<T: Metric>(make: fn() -> T) {
    let o1 = MetricBuilder::new("o1").build(Counter::new());
    let m = MetricBuilder::new("d.x").metadata("k", "v").build(make());
    let o2 = MetricBuilder::new("o2").build(make());
    sym::check(only(&*m, "d.x"), "a dynamic metric is the metric of its own entry only");
    sym::check(only(&*o1, "o1") && only(&*o2, "o2"), "a dynamic metric is the metric of its own entry only");
    let m = Box::new(m);
    sym::check(only(&**m, "d.x"), "moving the handle keeps the identity");
    let p = &**m as *const T as usize;
    match sym::choose(2, "which") {
        0 => drop(o1),
        _ => {
            drop(o1);
            drop(o2)
        }
    }
    sym::check(only(&**m, "d.x"), "other metrics going away keep the identity");
    let o3 = MetricBuilder::new("o3").build(make());
    sym::check(only(&**m, "d.x") && only(&*o3, "o3"), "other metrics coming keep the identity");
    sym::check(&**m as *const T as usize == p, "the metric does not move");
    let un = make();
    sym::check(who(&un).is_empty(), "an unregistered metric is no entry's metric");
    let (un, e) = MetricBuilder::new("d.un").build_pinned(make());
    sym::check(who(&*un).is_empty(), "an unregistered metric is no entry's metric");
    let un = std::pin::pin!(un);
    un.as_ref().register(e);
    sym::check(only(&**un, "d.un"), "a pinned metric is the metric of its own entry only");
    sym::cover("end");
}
struct Big([u64; 20], u8);
impl Metric for Big {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0[3]))
    }
}
struct Tiny(u8);
impl Metric for Tiny {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0 as u64))
    }
}
#[repr(align(32))]
struct Wide(u64);
impl Metric for Wide {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0))
    }
}
#[no_mangle]
pub extern "C" fn h_c23_dynamic() {
    match sym::choose(8, "kind") {
        0 => dynamic(Counter::new),
        1 => dynamic(Gauge::new),
        2 => dynamic(|| AtomicHistogram::new(0, 2)),
        3 => dynamic(|| RwLockHistogram::new(0, 2)),
        4 => dynamic(|| LazyGauge::new(Gauge::new)),
        5 => dynamic(|| Big([1; 20], 2)),
        6 => dynamic(|| Tiny(1)),
        _ => dynamic(|| Wide(1)),
    }
}

/// Metrics of different types at one address: a metric that contains another one.
#[repr(C)]
struct Outer {
    inner: Counter,
    more: u64,
}
impl Metric for Outer {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.inner.value() + self.more))
    }
}
#[no_mangle]
pub extern "C" fn h_c23_nested() {
    let o = MetricBuilder::new("outer").build(Outer { inner: Counter::new(), more: 1 });
    sym::check(only(&*o, "outer"), "a metric is the metric of its own entry");
    sym::check(who(&o.inner).is_empty(), "a part of a metric, of another type, is not that metric");
    sym::cover("end");
}
