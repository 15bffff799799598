//! C03: a metric reached through its entry is the metric the owner updates.
use crate::stat::*;
use crate::sym;
use metriken::*;
use std::any::Any;

fn addr<T: ?Sized>(p: &T) -> usize {
    p as *const T as *const u8 as usize
}

fn any_is<T: 'static>(e: &MetricEntry, owner: &T) -> bool {
    match e.as_any() {
        Some(a) => match a.downcast_ref::<T>() {
            Some(t) => addr(t) == addr(owner),
            None => false,
        },
        None => false,
    }
}
fn count_types(a: &dyn Any) -> usize {
    a.is::<Counter>() as usize
        + a.is::<Gauge>() as usize
        + a.is::<AtomicHistogram>() as usize
        + a.is::<RwLockHistogram>() as usize
        + a.is::<Custom>() as usize
        + a.is::<LazyCounter>() as usize
        + a.is::<LazyGauge>() as usize
}
fn one_type(e: &MetricEntry) -> bool {
    match e.as_any() {
        Some(a) => count_types(a) == 1,
        None => false,
    }
}

fn check_counter(name: &str, c: &Counter, x: u64, y: u64) {
    c.set(x);
    let ok = with_entry(name, |e| {
        sym::check(e.is_enabled(), "a counter entry is enabled");
        let v = match e.value() {
            Some(Value::Counter(v)) => v,
            _ => {
                sym::check(false, "a counter entry has a counter value");
                0
            }
        };
        sym::check(v == x, "the entry shows the owner's counter value");
        sym::observe(v);
        sym::check(any_is(e, c), "the counter entry downcasts to the owner's counter");
        sym::check(one_type(e), "the entry downcasts to nothing else");
        if let Some(c2) = e.as_any().and_then(|a| a.downcast_ref::<Counter>()) {
            c2.add(y);
        }
    });
    sym::check(ok, "exactly one entry of that name");
    sym::check(c.value() == x.wrapping_add(y), "updates through the entry reach the owner");
}
fn check_gauge(name: &str, c: &Gauge, x: i64, y: i64) {
    c.set(x);
    let ok = with_entry(name, |e| {
        sym::check(e.is_enabled(), "a gauge entry is enabled");
        let v = match e.value() {
            Some(Value::Gauge(v)) => v,
            _ => {
                sym::check(false, "a gauge entry has a gauge value");
                0
            }
        };
        sym::check(v == x, "the entry shows the owner's gauge value");
        sym::check(any_is(e, c), "the gauge entry downcasts to the owner's gauge");
        sym::check(one_type(e), "the entry downcasts to nothing else");
        if let Some(c2) = e.as_any().and_then(|a| a.downcast_ref::<Gauge>()) {
            c2.sub(y);
        }
    });
    sym::check(ok, "exactly one entry of that name");
    sym::check(c.value() == x.wrapping_sub(y), "updates through the entry reach the owner");
}
fn other_is<T: 'static>(e: &MetricEntry, owner: &T) -> bool {
    match e.value() {
        Some(Value::Other(a)) => match a.downcast_ref::<T>() {
            Some(t) => addr(t) == addr(owner),
            None => false,
        },
        _ => false,
    }
}
fn check_hist(name: &str, h: &AtomicHistogram) {
    let x = sym::int(3, "x");
    let ok = with_entry(name, |e| {
        sym::check(e.is_enabled(), "a histogram entry is enabled");
        sym::check(other_is(e, h), "a histogram's value is the histogram itself");
        sym::check(any_is(e, h), "the histogram entry downcasts to the owner's histogram");
        sym::check(one_type(e), "the entry downcasts to nothing else");
        if let Some(h2) = e.as_any().and_then(|a| a.downcast_ref::<AtomicHistogram>()) {
            sym::check(h2.increment(x).is_ok(), "increment through the entry");
        }
    });
    sym::check(ok, "exactly one entry of that name");
    let s: u64 = match h.load() {
        Some(l) => l.as_slice().iter().sum(),
        None => 0,
    };
    sym::check(s == 1, "the increment through the entry reached the owner");
}
fn check_rwhist(name: &str, h: &RwLockHistogram) {
    let d = [sym::u64("d0"), sym::u64("d1"), sym::u64("d2"), sym::u64("d3")];
    let ok = with_entry(name, |e| {
        sym::check(e.is_enabled(), "a histogram entry is enabled");
        sym::check(other_is(e, h), "a histogram's value is the histogram itself");
        sym::check(any_is(e, h), "the histogram entry downcasts to the owner's histogram");
        sym::check(one_type(e), "the entry downcasts to nothing else");
        if let Some(h2) = e.as_any().and_then(|a| a.downcast_ref::<RwLockHistogram>()) {
            sym::check(h2.update_from(&d).is_ok(), "update through the entry");
        }
    });
    sym::check(ok, "exactly one entry of that name");
    match h.load() {
        Some(l) => {
            let l = l.as_slice();
            sym::check(
                l.len() == 4 && (l[0] == d[0]) & (l[1] == d[1]) & (l[2] == d[2]) & (l[3] == d[3]),
                "the update through the entry reached the owner",
            )
        }
        None => sym::check(false, "the update through the entry reached the owner"),
    }
}
fn check_custom(name: &str, c: &Custom) {
    let (en, an) = (sym::flag("enabled"), sym::flag("any"));
    let kind = sym::choose(4, "kind") as u64;
    let num = sym::u64("num");
    c.set(en, an, kind, num);
    let ok = with_entry(name, |e| {
        sym::check(e.is_enabled() == en, "is_enabled is the metric's own answer");
        if an {
            sym::check(any_is(e, c), "as_any is the metric's own answer");
            sym::check(one_type(e), "the entry downcasts to nothing else");
        } else {
            sym::check(e.as_any().is_none(), "as_any is the metric's own answer");
        }
        match e.value() {
            None => sym::check(kind == 0, "no value when the metric has none"),
            Some(Value::Counter(v)) => {
                sym::check(kind == 1 && v == num, "counter value of a custom metric")
            }
            Some(Value::Gauge(v)) => {
                sym::check(kind == 2 && v as u64 == num, "gauge value of a custom metric")
            }
            Some(Value::Other(_)) => {
                sym::check(kind == 3 && other_is(e, c), "other value of a custom metric")
            }
            _ => sym::check(false, "a known kind of value"),
        }
    });
    sym::check(ok, "exactly one entry of that name");
}

/// A lazy metric that was touched shows what the metric in it answers.
fn check_lazy_custom(name: &str, c: &Custom) {
    let (en, an) = (sym::flag("enabled"), sym::flag("any"));
    let kind = sym::choose(4, "kind") as u64;
    let num = sym::u64("num");
    c.set(en, an, kind, num);
    let ok = with_entry(name, |e| {
        sym::check(e.is_enabled(), "a lazy metric is enabled once touched");
        if an {
            sym::check(any_is(e, c), "the entry downcasts to the metric in the lazy");
        }
        match e.value() {
            None => sym::check(kind == 0, "no value when the metric has none"),
            Some(Value::Counter(v)) => sym::check(kind == 1 && v == num, "counter value of a custom metric"),
            Some(Value::Gauge(v)) => sym::check(kind == 2 && v as u64 == num, "gauge value of a custom metric"),
            Some(Value::Other(_)) => sym::check(kind == 3 && other_is(e, c), "other value of a custom metric"),
            _ => sym::check(false, "a known kind of value"),
        }
    });
    sym::check(ok, "exactly one entry of that name");
}

#[no_mangle]
pub extern "C" fn h_c03_static() {
    match sym::choose(7, "which") {
        0 => {
            sym::check(S_COUNTER.value() == 5, "the static keeps its initial value");
            check_counter("s.counter", &S_COUNTER, sym::u64("x"), sym::u64("y"))
        }
        1 => {
            sym::check(S_GAUGE.value() == -7, "the static keeps its initial value");
            check_gauge("s.gauge", &S_GAUGE, sym::i64("x"), sym::i64("y"))
        }
        2 => check_hist("s.hist", &S_HIST),
        3 => check_rwhist("s.rwhist", &S_RWHIST),
        4 => {
            nothing("s.lazy.counter");
            check_counter("s.lazy.counter", &S_LAZYC, sym::u64("x"), sym::u64("y"))
        }
        5 => {
            nothing("s.lazy.gauge");
            check_gauge("s.lazy.gauge", &S_LAZYG, sym::i64("x"), sym::i64("y"))
        }
        _ => check_custom("s.custom", &S_CUSTOM),
    }
    sym::cover("end");
}
fn nothing(name: &str) {
    let ok = with_entry(name, |e| {
        sym::check(!e.is_enabled(), "an untouched lazy metric is not enabled");
        sym::check(e.value().is_none(), "an untouched lazy metric has no value");
        sym::check(e.as_any().is_none(), "an untouched lazy metric has no Any");
    });
    sym::check(ok, "exactly one entry of that name");
}

#[no_mangle]
pub extern "C" fn h_c03_dynamic() {
    // other dynamic metrics before and after the one looked at
    let before = MetricBuilder::new("d.before").build(Counter::with_value(1));
    let which = sym::choose(9, "which");
    match which {
        0 => {
            let m = MetricBuilder::new("d.x").build(Counter::new());
            let after = MetricBuilder::new("d.after").build(Gauge::with_value(2));
            check_counter("d.x", &m, sym::u64("x"), sym::u64("y"));
            sym::check(after.value() == 2, "other metrics are untouched");
        }
        1 => {
            let m = MetricBuilder::new("d.x").build(Gauge::new());
            check_gauge("d.x", &m, sym::i64("x"), sym::i64("y"))
        }
        2 => {
            let m = MetricBuilder::new("d.x").build(AtomicHistogram::new(0, 3));
            check_hist("d.x", &m)
        }
        3 => {
            let m = MetricBuilder::new("d.x").build(RwLockHistogram::new(0, 3));
            check_rwhist("d.x", &m)
        }
        4 => {
            let m = MetricBuilder::new("d.x").build(LazyCounter::new(Counter::new));
            nothing("d.x");
            check_counter("d.x", &m, sym::u64("x"), sym::u64("y"))
        }
        5 => {
            let (m, e) = MetricBuilder::new("d.x").build_pinned(Gauge::new());
            let m = std::pin::pin!(m);
            m.as_ref().register(e);
            check_gauge("d.x", &m, sym::i64("x"), sym::i64("y"))
        }
        6 => {
            let m = MetricBuilder::new("d.x").build(Custom::new());
            check_custom("d.x", &m)
        }
        7 => {
            let m = MetricBuilder::new("d.x").build(Lazy::<AtomicHistogram>::new(|| AtomicHistogram::new(0, 3)));
            nothing("d.x");
            check_hist("d.x", &m)
        }
        _ => {
            let m = MetricBuilder::new("d.x").build(Lazy::<Custom>::new(Custom::new));
            nothing("d.x");
            check_lazy_custom("d.x", &m)
        }
    }
    sym::check(before.value() == 1, "other metrics are untouched");
    sym::cover("end");
}

#[no_mangle]
pub extern "C" fn h_c03_par() {
    // an owner updates while another thread reads the entry
    let (x, y) = (sym::u64("x"), sym::u64("y"));
    let m = MetricBuilder::new("d.x").build(Counter::with_value(x));
    let mut seen = [0u64; 2];
    {
        let (m, seen) = (&m, &mut seen);
        sym::par2(
            move || {
                m.add(y);
                let ok = with_entry("d.x", |e| match e.value() {
                    Some(Value::Counter(v)) => seen[1] = v,
                    _ => sym::check(false, "counter value"),
                });
                sym::check(ok, "the entry stays listed");
            },
            move || {
                let ok = with_entry("d.x", |e| match e.value() {
                    Some(Value::Counter(v)) => {
                        sym::check(v == x || v == x.wrapping_add(y), "a reading is the value before or after the update");
                    }
                    _ => sym::check(false, "counter value"),
                });
                sym::check(ok, "the entry stays listed");
            },
        );
    }
    sym::check(seen[1] == x.wrapping_add(y), "an update made before is visible through the entry");
    sym::cover("end");
}
