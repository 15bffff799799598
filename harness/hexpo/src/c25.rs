//! C25: observing metrics never changes them.
use crate::stat::*;
use crate::sym;
use metriken::*;
use metriken_exposition::{Snapshot, Snapshotter, SnapshotterBuilder};

/// What every owner reads from its own metric, without the registry.
fn readings(d: &Gauge) -> Vec<u64> {
    let mut v = vec![S_COUNTER.value(), S_GAUGE.value() as u64, d.value() as u64];
    for h in [S_HIST.load(), S_RWHIST.load()] {
        match h {
            None => v.push(0),
            Some(h) => {
                v.push(1 + h.config().grouping_power() as u64 + 256 * h.config().max_value_power() as u64);
                v.extend_from_slice(h.as_slice());
            }
        }
    }
    match Lazy::get(&S_LAZYC) {
        None => v.push(0),
        Some(c) => v.extend([1, c.value()]),
    }
    match Lazy::get(&S_LAZYG) {
        None => v.push(0),
        Some(c) => v.extend([1, c.value() as u64]),
    }
    v.push(S_CUSTOM.bits.load(std::sync::atomic::Ordering::SeqCst));
    v.push(S_CUSTOM.num.load(std::sync::atomic::Ordering::SeqCst));
    v
}
fn same(a: &[u64], b: &[u64]) -> bool {
    let mut d = (a.len() != b.len()) as u64;
    for i in 0..a.len().min(b.len()) {
        d |= a[i] ^ b[i];
    }
    d == 0
}
const KINDS: usize = 8;
/// Look at everything in one of the ways there are.
fn look(kind: usize) {
    match kind {
        0 => {
            let m = metrics();
            for e in m.iter() {
                sym::observe(e.is_enabled() as u64);
                match e.value() {
                    Some(Value::Counter(v)) => sym::observe(v),
                    Some(Value::Gauge(v)) => sym::observe(v as u64),
                    Some(_) => sym::observe(1),
                    None => sym::observe(0),
                }
            }
        }
        1 => {
            let m = metrics();
            for e in m.iter().rev() {
                sym::observe(e.formatted(Format::Simple).len() as u64 + e.formatted(Format::Prometheus).len() as u64);
                sym::observe(e.description().map_or(0, |d| d.len()) as u64);
                for (k, v) in e.metadata() {
                    sym::observe((k.len() + v.len()) as u64);
                }
            }
        }
        2 => {
            let m = metrics();
            for e in m.iter() {
                if let Some(a) = e.as_any() {
                    if let Some(h) = a.downcast_ref::<AtomicHistogram>() {
                        sym::observe(h.load().is_some() as u64);
                    }
                    if let Some(h) = a.downcast_ref::<RwLockHistogram>() {
                        sym::observe(h.load().is_some() as u64);
                    }
                    if let Some(c) = a.downcast_ref::<Counter>() {
                        sym::observe(c.value());
                    }
                    if let Some(c) = a.downcast_ref::<Gauge>() {
                        sym::observe(c.value() as u64);
                    }
                }
                sym::observe(e.request_ref::<u64>().is_some() as u64);
                sym::observe(e.is(&S_COUNTER) as u64);
            }
        }
        3 => {
            sym::observe(Snapshotter::default().snapshot().counters().len() as u64);
        }
        4 => {
            let s = SnapshotterBuilder::new().filter(|e| e.is_enabled() && e.value().is_none()).metadata("a".to_string(), "b".to_string()).build();
            sym::observe(s.snapshot().gauges().len() as u64);
        }
        5 => {
            let s = Snapshotter::default();
            for _ in 0..2 {
                let mut s = s.snapshot();
                s.counters();
                s.gauges();
                s.histograms();
            }
        }
        6 => {
            let m = metrics();
            sym::observe(m.iter().count() as u64 + m.dynamic_metrics().len() as u64);
            sym::observe(m.iter().nth(2).is_some() as u64 + m.iter().nth_back(1).is_some() as u64);
            sym::observe(m.iter().fold(0, |a, e| a + e.name().len() as u64));
        }
        _ => {
            sym::observe(S_HIST.load().is_some() as u64 + S_RWHIST.load().is_some() as u64);
            sym::observe(Lazy::get(&S_LAZYC).is_some() as u64);
            sym::observe(S_HIST.config().grouping_power() as u64 + S_RWHIST.config().max_value_power() as u64);
        }
    }
}
fn prepare() {
    S_COUNTER.set(sym::u64("counter"));
    S_GAUGE.set(sym::i64("gauge"));
    if sym::flag("hist") {
        let _ = S_HIST.increment(5);
    }
    if sym::flag("rwhist") {
        let b: Vec<u64> = (0..4).map(|i| sym::u64(["b0", "b1", "b2", "b3"][i])).collect();
        let _ = S_RWHIST.update_from(&b);
    }
    if sym::flag("lazies") {
        S_LAZYC.add(sym::u64("lazy_counter"));
        S_LAZYG.sub(sym::i64("lazy_gauge"));
    }
    S_CUSTOM.set(true, true, sym::choose(4, "custom_kind") as u64, sym::u64("custom"));
}
/// Any two observations leave every reading as it was, and the next update continues from it.
#[no_mangle]
pub extern "C" fn h_c25_quiet() {
    prepare();
    let d = MetricBuilder::new("d.gauge").build(Gauge::with_value(sym::i64("dynamic")));
    let before = readings(&d);
    look(sym::choose(KINDS, "look"));
    sym::check(same(&before, &readings(&d)), "looking changed nothing");
    look(sym::choose(KINDS, "look"));
    sym::check(same(&before, &readings(&d)), "looking changed nothing");
    let x = sym::u64("x");
    sym::check(S_COUNTER.add(x) == before[0] && S_COUNTER.value() == before[0].wrapping_add(x), "the next update continues from it");
    sym::check(d.sub(x as i64) as u64 == before[2], "the next update continues from it");
    sym::check(metrics().dynamic_metrics().len() == 1 && metrics().iter().count() == STATICS + 1, "the same metrics are listed");
    sym::cover("end");
}
/// What was taken stays what it was when metrics are updated or dropped afterwards.
#[no_mangle]
pub extern "C" fn h_c25_copy() {
    prepare();
    let v = sym::i64("dynamic");
    let d = MetricBuilder::new("d.gauge").build(Gauge::with_value(v));
    let before = readings(&d);
    let rw = S_RWHIST.load();
    let at = S_HIST.load();
    let mut s: Snapshot = Snapshotter::default().snapshot();
    S_COUNTER.add(1);
    S_GAUGE.set(7);
    let _ = S_HIST.increment(5);
    let _ = S_RWHIST.update_from(&[9, 9, 9, 9]);
    S_LAZYC.reset();
    drop(d);
    let find = |c: &[metriken_exposition::Counter], n: &str| c.iter().find(|c| c.name == n).map(|c| c.value);
    let c = s.counters();
    sym::check(find(&c, "s.counter") == Some(before[0]), "the counter's reading then");
    let g = s.gauges();
    sym::check(g.iter().find(|g| g.name == "s.gauge").map(|g| g.value as u64) == Some(before[1]), "the gauge's reading then");
    sym::check(g.iter().find(|g| g.name == "d.gauge").map(|g| g.value) == Some(v), "the dropped metric's reading then");
    let h = s.histograms();
    for (n, then, was) in [("s.hist", &at, before[3] != 0), ("s.rwhist", &rw, rw.is_some())] {
        let x = h.iter().find(|h| h.name == n);
        sym::check(x.is_some() == then.is_some() && then.is_some() == was, "histograms used then");
        if let (Some(x), Some(t)) = (x, then) {
            sym::check(same(x.value.as_slice(), t.as_slice()), "the histogram's buckets then");
        }
    }
    if let Some(t) = &at {
        sym::check(t.as_slice().iter().sum::<u64>() == 1, "a loaded histogram is a copy");
    }
    sym::cover("end");
}
/// Updates made while others look are not lost.
#[no_mangle]
pub extern "C" fn h_c25_race() {
    let (x, y, z) = (sym::u64("x"), sym::i64("y"), sym::i64("z"));
    let kind = sym::choose(KINDS, "look");
    let d = MetricBuilder::new("d.gauge").build(Gauge::with_value(z));
    S_COUNTER.set(x);
    let what = sym::choose(3, "what");
    {
        let d = &d;
        sym::par2(
            move || match what {
                0 => {
                    sym::check(S_COUNTER.increment() == x, "an update starts from what was there");
                    sym::check(S_COUNTER.add(x) == x.wrapping_add(1), "an update starts from what was there");
                }
                1 => {
                    sym::check(d.sub(y) == z, "an update starts from what was there");
                    sym::check(S_HIST.increment(5).is_ok() && S_HIST.increment(5).is_ok(), "incremented");
                }
                _ => {
                    S_LAZYC.add(x);
                    sym::check(S_RWHIST.update_from(&[x, 1, 2, 3]).is_ok(), "updated");
                }
            },
            move || look(kind),
        );
    }
    match what {
        0 => sym::check(S_COUNTER.value() == x.wrapping_add(x).wrapping_add(1), "no update is lost"),
        1 => {
            sym::check(d.value() == z.wrapping_sub(y), "no update is lost");
            sym::check(S_HIST.load().map(|h| h.as_slice().iter().sum::<u64>()) == Some(2), "no update is lost");
        }
        _ => {
            sym::check(Lazy::get(&S_LAZYC).map(|c| c.value()) == Some(x), "no update is lost");
            sym::check(S_RWHIST.load().is_some_and(|h| same(h.as_slice(), &[x, 1, 2, 3])), "no update is lost");
        }
    }
    sym::cover("end");
}
