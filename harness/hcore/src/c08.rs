//! C08: a held registry view stays complete and valid.
use crate::c07::Alive;
use crate::stat::STATICS;
use crate::sym;
use metriken::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

fn ids(m: &Metrics) -> Vec<(usize, u64)> {
    m.dynamic_metrics()
        .map(|e| {
            let v = match e.value() {
                Some(Value::Counter(v)) => v,
                _ => {
                    sym::check(false, "an entry of a held view is usable");
                    0
                }
            };
            (e as *const MetricEntry as usize, v)
        })
        .collect()
}

/// A view held while another thread drops one metric and registers another.
#[no_mangle]
pub extern "C" fn h_c08_hold() {
    let n = sym::int(32, "n");
    let a = MetricBuilder::new("a").build(Alive::new(n));
    let b = MetricBuilder::new("b").build(Alive::new(n + 1));
    let action = sym::choose(3, "action");
    // changes begun and changes completed so far by the other thread
    let (begun, done) = (AtomicU64::new(0), AtomicU64::new(0));
    let (sr, dr) = (&begun, &done);
    let mut left: [Option<DynBoxedMetric<Alive>>; 3] = [None, None, None];
    let lr = &mut left;
    sym::par2(
        move || {
            let m = metrics();
            let before = sr.load(SeqCst);
            let one = ids(&m);
            let all = m.iter().count();
            let two = ids(&m);
            sym::check(one == two, "a held view does not change");
            sym::check(all == STATICS + one.len(), "a held view is complete");
            let names: Vec<&str> = m.dynamic_metrics().map(|e| e.name()).collect();
            sym::check(names.len() == one.len(), "a held view does not change");
            let after = dr.load(SeqCst);
            sym::check(after <= before, "no registration or drop begun while a view is held completes meanwhile");
            drop(m);
        },
        move || {
            sr.fetch_add(1, SeqCst);
            match action {
                0 => drop(a),
                1 => {
                    lr[0] = Some(a);
                    lr[2] = Some(MetricBuilder::new("c").build(Alive::new(n + 2)));
                }
                _ => {
                    let (x, e) = MetricBuilder::new("c").build_pinned(Alive::new(n + 2));
                    let x = Box::pin(x);
                    x.as_ref().register(e);
                    // one completed change so far
                    dr.fetch_add(1, SeqCst);
                    sr.fetch_add(1, SeqCst);
                    drop(x);
                    lr[0] = Some(a);
                }
            }
            dr.fetch_add(1, SeqCst);
            lr[1] = Some(b);
        },
    );
    let m = metrics();
    let mut names: Vec<&str> = m.dynamic_metrics().map(|e| e.name()).collect();
    names.sort();
    let want: &[&str] = match action {
        0 => &["b"],
        1 => &["a", "b", "c"],
        _ => &["a", "b"],
    };
    sym::check(names == want, "a registration or drop that waited took effect");
    drop(m);
    drop(left);
    sym::cover("end");
}

/// Two views at once, from different threads, with a writer in between: no deadlock, no loss.
#[no_mangle]
pub extern "C" fn h_c08_views() {
    let n = sym::int(32, "n");
    let a = MetricBuilder::new("a").build(Alive::new(n));
    let view = || {
        let m = metrics();
        let l = ids(&m);
        sym::check(ids(&m) == l, "a held view does not change");
        l.len()
    };
    let mut b = None;
    let br = &mut b;
    sym::par3(
        || {
            let k = view();
            sym::check(k == 1 || k == 2, "a view has the metrics registered at that time");
        },
        || {
            let k = view();
            sym::check(k == 1 || k == 2, "a view has the metrics registered at that time");
        },
        move || {
            *br = Some(MetricBuilder::new("b").build(Alive::new(n)));
        },
    );
    sym::check(metrics().dynamic_metrics().len() == 2, "the registration took effect");
    drop(b);
    drop(a);
    sym::cover("end");
}

/// Two threads hold a view at the same time: each waits for the other to have one.
#[no_mangle]
pub extern "C" fn h_c08_shared() {
    let n = sym::int(32, "n");
    let a = MetricBuilder::new("a").build(Alive::new(n));
    let m = metrics();
    let t = unsafe {
        sym::spawn_borrow(|| {
            let m2 = metrics();
            sym::check(ids(&m2).len() == 1, "a second view is complete");
        })
    };
    // joining while holding a view: the other thread's view must not need ours to end
    sym::join(t);
    sym::check(ids(&m).len() == 1, "the first view is still complete");
    drop(m);
    drop(a);
    sym::check(metrics().dynamic_metrics().len() == 0, "the drop takes effect after the view is released");
    sym::cover("end");
}

/// Writers only: registrations and drops from three threads never deadlock and are never lost.
#[no_mangle]
pub extern "C" fn h_c08_writers() {
    let mut s: [Option<DynBoxedMetric<Alive>>; 3] = [None, None, None];
    let n = sym::int(32, "n");
    let pre = MetricBuilder::new("pre").build(Alive::new(n));
    let [a, b, c] = &mut s;
    let _ = c;
    sym::par3(
        move || *a = Some(MetricBuilder::new("a").build(Alive::new(n))),
        move || *b = Some(MetricBuilder::new("b").build(Alive::new(n))),
        move || drop(pre),
    );
    let m = metrics();
    let mut names: Vec<&str> = m.dynamic_metrics().map(|e| e.name()).collect();
    names.sort();
    sym::check(names == ["a", "b"], "every registration and drop took effect");
    drop(m);
    sym::cover("end");
}

/// A thread that panics while it holds a view releases it; others go on.
#[no_mangle]
pub extern "C" fn h_c08_unwind() {
    let n = sym::int(32, "n");
    let a = MetricBuilder::new("a").build(Alive::new(n));
    let mut b = None;
    let br = &mut b;
    let nested = sym::flag("nested");
    sym::par2(
        move || {
            let p = sym::panics(|| {
                let m = metrics();
                let _l = ids(&m);
                if nested {
                    for _e in m.iter() {
                        panic!("while iterating");
                    }
                }
                panic!("while a view is held");
            });
            sym::check(p, "the holder panicked");
            sym::check(metrics().dynamic_metrics().len() >= 1, "a later view works");
        },
        move || {
            *br = Some(MetricBuilder::new("b").build(Alive::new(n)));
        },
    );
    sym::check(ids(&metrics()).len() == 2, "the registration took effect");
    drop(b);
    drop(a);
    sym::check(metrics().dynamic_metrics().len() == 0, "the drops took effect");
    sym::cover("end");
}
