//! C04: lazy metrics appear only once written and initialise exactly once.
use crate::stat::*;
use crate::sym;
use metriken::*;
use std::any::Any;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

/// Two words that a correctly published instance always shows as equal at first.
struct Pair {
    a: u64,
    n: AtomicU64,
    b: u64,
}
impl Metric for Pair {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.n.load(SeqCst)))
    }
}

fn looks_absent<T: Metric, F: Send + 'static>(l: &Lazy<T, F>) -> bool {
    Lazy::get(l).is_none() & !l.is_enabled() & Metric::value(l).is_none() & l.as_any().is_none()
}

#[no_mangle]
pub extern "C" fn h_c04_seq() {
    static INITS: AtomicU32 = AtomicU32::new(0);
    let x = sym::u64("x");
    let mut l = Lazy::new(move || {
        INITS.fetch_add(1, SeqCst);
        Pair { a: x, n: AtomicU64::new(x), b: x }
    });
    let n = sym::choose(4, "looks");
    for i in 0..n {
        match sym::choose(5, "look") {
            0 => sym::check(Lazy::get(&l).is_none(), "get before the first access"),
            1 => sym::check(!l.is_enabled(), "not enabled before the first access"),
            2 => sym::check(Metric::value(&l).is_none(), "no value before the first access"),
            3 => sym::check(l.as_any().is_none(), "no Any before the first access"),
            _ => sym::check(Lazy::get_mut(&mut l).is_none(), "get_mut before the first access"),
        }
        let _ = i;
        sym::check(INITS.load(SeqCst) == 0, "looking does not initialise");
    }
    sym::check(looks_absent(&l), "nothing before the first access");
    sym::check(INITS.load(SeqCst) == 0, "looking does not initialise");
    // first access, one of three ways
    let first = match sym::choose(3, "access") {
        0 => l.n.load(SeqCst),
        1 => Lazy::force(&l).n.load(SeqCst),
        _ => {
            let p: &mut Pair = &mut l;
            *p.n.get_mut()
        }
    };
    sym::check(first == x, "the first access sees the initialised value");
    sym::check(INITS.load(SeqCst) == 1, "the initialiser ran once");
    let y = sym::u64("y");
    l.n.fetch_add(y, SeqCst);
    let v = x.wrapping_add(y);
    sym::check(l.is_enabled(), "enabled after the first access");
    match Metric::value(&l) {
        Some(Value::Counter(g)) => sym::check(g == v, "the value after an update"),
        _ => sym::check(false, "a counter value after an update"),
    }
    let p1 = Lazy::get(&l).map(|p| p as *const Pair as usize);
    let p2 = Lazy::force(&l) as *const Pair as usize;
    let p3 = l.as_any().and_then(|a| a.downcast_ref::<Pair>()).map(|p| p as *const Pair as usize);
    sym::check(p1 == Some(p2) && p3 == Some(p2), "every access reaches the same instance");
    let p4 = Lazy::get_mut(&mut l).map(|p| p as *const Pair as usize);
    sym::check(p4 == Some(p2), "get_mut reaches the same instance");
    sym::check((l.a == x) & (l.b == x), "the instance is the initialised one");
    sym::check(INITS.load(SeqCst) == 1, "the initialiser ran once");
    sym::cover("end");
}

#[no_mangle]
pub extern "C" fn h_c04_default() {
    let l: Lazy<Counter> = Lazy::default();
    sym::check(looks_absent(&l), "nothing before the first access");
    let x = sym::u64("x");
    sym::check(l.add(x) == 0, "the default is a default counter");
    match Metric::value(&l) {
        Some(Value::Counter(v)) => sym::check(v == x, "the value after an update"),
        _ => sym::check(false, "a counter value after an update"),
    }
    sym::cover("end");
}

/// Reading, iterating and formatting the whole registry initialises nothing.
#[no_mangle]
pub extern "C" fn h_c04_registry() {
    static INITS: AtomicU32 = AtomicU32::new(0);
    let x = sym::i64("x");
    let d = MetricBuilder::new("d.lazy").metadata("k", "v").build(Lazy::new(move || {
        INITS.fetch_add(1, SeqCst);
        Gauge::with_value(x)
    }));
    let mut seen = 0;
    {
        let m = metrics();
        for e in m.iter() {
            let en = e.is_enabled();
            let v = e.value().is_some();
            let a = e.as_any().is_some();
            if e.name() == "d.lazy" || e.name() == "s.lazy.counter" || e.name() == "s.lazy.gauge" {
                sym::check(!en && !v && !a, "an untouched lazy metric shows nothing");
                seen += 1;
            }
            let _ = e.formatted(Format::Prometheus);
            let _ = e.description();
            let _ = e.metadata().len();
        }
    }
    sym::check(seen == 3, "all lazy metrics are listed");
    sym::check(INITS.load(SeqCst) == 0, "walking the registry does not initialise");
    sym::check(Lazy::get(&S_LAZYC).is_none() && Lazy::get(&S_LAZYG).is_none() && Lazy::get(&d).is_none(), "walking the registry does not initialise");
    let y = sym::i64("y");
    match sym::choose(3, "touch") {
        0 => {
            S_LAZYC.add(y as u64);
        }
        1 => {
            S_LAZYG.add(y);
        }
        _ => {
            d.add(y);
        }
    };
    let m = metrics();
    let mut on = 0;
    for e in m.iter() {
        if e.name() == "d.lazy" || e.name() == "s.lazy.counter" || e.name() == "s.lazy.gauge" {
            if e.is_enabled() {
                on += 1;
                match e.value() {
                    Some(Value::Counter(v)) => sym::check(v == y as u64 && e.name() == "s.lazy.counter", "value of the touched metric"),
                    Some(Value::Gauge(v)) => {
                        let b = if e.name() == "d.lazy" { x } else { 0 };
                        sym::check(v == b.wrapping_add(y), "value of the touched metric")
                    }
                    _ => sym::check(false, "value of the touched metric"),
                }
            } else {
                sym::check(e.value().is_none(), "no value while not enabled");
            }
        }
    }
    sym::check(on == 1, "exactly the touched lazy metric shows up");
    sym::cover("end");
}

struct Sh<T>(*const T);
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0)
    }
}

/// Two first accesses and one observer.
fn race(observer: bool) {
    static INITS: AtomicU32 = AtomicU32::new(0);
    let x = sym::u64("x");
    let (d1, d2) = (sym::u64("d1"), sym::u64("d2"));
    let l = Lazy::new(move || {
        INITS.fetch_add(1, SeqCst);
        Pair { a: x, n: AtomicU64::new(x), b: x }
    });
    let lr = &l;
    let at1 = AtomicU64::new(0);
    let at2 = AtomicU64::new(0);
    let touch = |d: u64, at: &AtomicU64| {
        let p: &Pair = lr;
        sym::check((p.a == x) & (p.b == x), "an access sees a fully initialised instance");
        at.store(p as *const Pair as u64, SeqCst);
        p.n.fetch_add(d, SeqCst);
    };
    let look = || {
        let enabled = lr.is_enabled();
        match Lazy::get(lr) {
            None => sym::check(!enabled, "once enabled it stays enabled"),
            Some(p) => {
                sym::check((p.a == x) & (p.b == x), "an observer sees a fully initialised instance");
                match Metric::value(lr) {
                    Some(Value::Counter(v)) => {
                        sym::check(
                            (v == x) | (v == x.wrapping_add(d1)) | (v == x.wrapping_add(d2)) | (v == x.wrapping_add(d1).wrapping_add(d2)),
                            "an observer sees an actual value",
                        );
                    }
                    _ => sym::check(false, "once visible it has a value"),
                }
                sym::cover("observer saw the instance");
            }
        }
        sym::check(INITS.load(SeqCst) <= 1, "at most one initialisation");
    };
    if observer {
        sym::par2(|| touch(d1, &at1), look);
        sym::check(l.n.load(SeqCst) == x.wrapping_add(d1), "no update is lost");
    } else {
        sym::par2(|| touch(d1, &at1), || touch(d2, &at2));
        sym::check(at1.load(SeqCst) == at2.load(SeqCst), "every access reaches the same instance");
        sym::check(l.n.load(SeqCst) == x.wrapping_add(d1).wrapping_add(d2), "no update is lost");
    }
    sym::check(INITS.load(SeqCst) == 1, "the initialiser ran exactly once");
    sym::check((l.a == x) & (l.b == x), "the instance is the initialised one");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c04_race_touch() {
    race(false)
}
#[no_mangle]
pub extern "C" fn h_c04_race_look() {
    race(true)
}
/// Three threads on a static lazy counter.
#[no_mangle]
pub extern "C" fn h_c04_race3() {
    let (a, b) = (sym::u64("a"), sym::u64("b"));
    sym::par3(
        || {
            S_LAZYC.add(a);
        },
        || {
            S_LAZYC.add(b);
        },
        || {
            let v = Metric::value(&S_LAZYC);
            match v {
                None => {}
                Some(Value::Counter(v)) => sym::check((v == 0) | (v == a) | (v == b) | (v == a.wrapping_add(b)), "an observer sees an actual value"),
                _ => sym::check(false, "a counter value"),
            }
        },
    );
    sym::check(Counter::value(&S_LAZYC) == a.wrapping_add(b), "no update is lost");
    sym::cover("end");
}

/// An initialiser that fails: the metric keeps showing nothing, and nothing gets stuck.
#[no_mangle]
pub extern "C" fn h_c04_panic() {
    static INITS: AtomicU32 = AtomicU32::new(0);
    let fail = sym::flag("fail");
    let x = sym::u64("x");
    let l = MetricBuilder::new("l").build(Lazy::new(move || {
        INITS.fetch_add(1, SeqCst);
        if fail {
            panic!("initialiser");
        }
        Pair { a: x, n: AtomicU64::new(x), b: x }
    }));
    let thread = sym::flag("thread");
    let lr = &l;
    let access = || match sym::panics(|| lr.n.load(SeqCst)) {
        true => sym::check(fail, "only a failing initialiser makes the access fail"),
        false => sym::check(!fail, "a failed initialisation gives no metric"),
    };
    if thread {
        sym::join(unsafe { sym::spawn_borrow(access) });
    } else {
        access();
    }
    sym::check(INITS.load(SeqCst) == 1, "the initialiser ran once");
    sym::check(looks_absent(lr) == fail, "nothing unless initialised");
    let m = metrics();
    for e in m.dynamic_metrics() {
        sym::check(e.is_enabled() != fail && e.value().is_some() != fail && e.as_any().is_some() != fail, "nothing unless initialised");
    }
    drop(m);
    access();
    sym::check(INITS.load(SeqCst) == 1, "the initialiser ran once");
    sym::check(looks_absent(lr) == fail, "nothing unless initialised");
    if !fail {
        sym::check((l.a == x) & (l.b == x), "the instance is the initialised one");
    }
    sym::cover("end");
}

/// An initialiser that looks at the registry, its own metric included, finds nothing there.
#[no_mangle]
pub extern "C" fn h_c04_reenter() {
    static INITS: AtomicU32 = AtomicU32::new(0);
    let x = sym::u64("x");
    let l = MetricBuilder::new("l").build(Lazy::new(move || {
        INITS.fetch_add(1, SeqCst);
        let m = metrics();
        let mut n = 0;
        for e in m.dynamic_metrics() {
            sym::check(!e.is_enabled() && e.value().is_none() && e.as_any().is_none(), "nothing while being initialised");
            n += 1;
        }
        sym::check(n == 1, "the metric is listed");
        Counter::with_value(x)
    }));
    sym::check(Counter::value(&l) == x, "the first access sees the initialised value");
    sym::check(INITS.load(SeqCst) == 1, "the initialiser ran once");
    sym::check(l.is_enabled(), "enabled after the first access");
    sym::cover("end");
}
