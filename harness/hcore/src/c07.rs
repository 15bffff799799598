//! C07: dynamic metrics are listed exactly from registration to drop.
use crate::stat::STATICS;
use crate::sym;
use crate::util::*;
use metriken::*;
use std::any::Any;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// A metric that knows whether it has been destroyed.
pub struct Alive {
    magic: u64,
    num: AtomicU64,
}
impl Alive {
    pub fn new(n: u64) -> Self {
        Alive { magic: 0x600d_600d, num: AtomicU64::new(n) }
    }
    pub fn add(&self, n: u64) {
        self.num.fetch_add(n, SeqCst);
    }
}
impl Drop for Alive {
    fn drop(&mut self) {
        // while a metric is being destroyed it must not be listed any more
        unsafe { std::ptr::write_volatile(&mut self.magic, 0xdead) };
    }
}
impl Metric for Alive {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        sym::check(self.magic == 0x600d_600d, "a listed metric has not been destroyed");
        Some(Value::Counter(self.num.load(SeqCst)))
    }
}

pub struct Want<'a> {
    pub name: &'a str,
    pub desc: Option<&'a str>,
    pub key: &'a str, // one metadata pair, or none if empty
    pub val: &'a str,
    pub num: u64,
}
fn matches(e: &MetricEntry, w: &Want) -> bool {
    let v = match e.value() {
        Some(Value::Counter(v)) => v == w.num,
        _ => false,
    };
    let md = e.metadata();
    v & str_eq(e.name(), w.name)
        & opt_eq(e.description(), w.desc)
        & if w.key.is_empty() { md.len() == 0 } else { md.len() == 1 && opt_eq(md.get(w.key), Some(w.val)) }
}
/// The dynamic part of the registry is exactly `want`, in both views of it.
pub fn listed(want: &[Want]) -> bool {
    let m = metrics();
    let a: Vec<&MetricEntry> = m.dynamic_metrics().collect();
    let b: Vec<&MetricEntry> = m.iter().skip(STATICS).collect();
    if a.len() != want.len() || b.len() != want.len() || m.dynamic_metrics().len() != want.len() {
        return false;
    }
    let mut ok = true;
    for l in [&a, &b] {
        for w in want {
            let mut n = 0u64;
            for e in l.iter() {
                n += matches(e, w) as u64;
            }
            ok &= n == 1;
        }
    }
    ok
}

fn builder(slot: usize, desc: bool, meta: bool) -> MetricBuilder {
    // slots 0 and 1 share a name
    let mut b = MetricBuilder::new(["same", "same", "other"][slot]);
    if desc {
        b = b.description(["first", "second", "third"][slot]);
    }
    if meta {
        b = b.metadata("slot", ["zero", "one", "two"][slot]);
    }
    b
}
fn want<'a>(slot: usize, desc: bool, meta: bool, num: u64) -> Want<'a> {
    Want {
        name: ["same", "same", "other"][slot],
        desc: if desc { Some(["first", "second", "third"][slot]) } else { None },
        key: if meta { "slot" } else { "" },
        val: ["zero", "one", "two"][slot],
        num,
    }
}

/// Histories of building, dropping and moving three boxed metrics.
fn history(steps: usize, annotate: bool) {
    let mut slots: [Option<DynBoxedMetric<Alive>>; 3] = [None, None, None];
    let mut info: [Option<(bool, bool, u64)>; 3] = [None; 3];
    for k in 0..steps {
        let i = sym::choose(3, "slot");
        match slots[i].take() {
            None => {
                let (d, m) = if annotate { (sym::flag("desc"), sym::flag("meta")) } else { (true, i != 0) };
                // distinct values so that entries can be told apart
                let n = sym::int(32, "n") << 8 | (k as u64) << 4 | i as u64;
                slots[i] = Some(builder(i, d, m).build(Alive::new(n)));
                info[i] = Some((d, m, n));
            }
            Some(x) => match sym::choose(3, "op") {
                0 => {
                    drop(x);
                    info[i] = None;
                }
                1 => {
                    // move it around, update through the handle
                    let b = Box::new(x);
                    let d = sym::int(32, "d") << 8;
                    b.add(d);
                    if let Some((_, _, n)) = &mut info[i] {
                        *n = n.wrapping_add(d);
                    }
                    slots[i] = Some(*b);
                }
                _ => {
                    // replace it: the new one is registered before the old one goes
                    let n = sym::int(32, "n") << 8 | (k as u64) << 4 | i as u64;
                    let y = builder(i, true, true).build(Alive::new(n));
                    drop(x);
                    slots[i] = Some(y);
                    info[i] = Some((true, true, n));
                }
            },
        }
        let mut w = vec![];
        for (s, x) in info.iter().enumerate() {
            if let Some((d, m, n)) = x {
                w.push(want(s, *d, *m, *n));
            }
        }
        sym::check(listed(&w), "exactly the registered, not yet dropped metrics are listed as registered");
    }
    let [a, b, c] = slots;
    drop(b);
    drop(a);
    drop(c);
    sym::check(listed(&[]), "nothing is listed once all are dropped");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c07_history() {
    history(4, false)
}
#[no_mangle]
pub extern "C" fn h_c07_history_long() {
    history(6, false)
}
#[no_mangle]
pub extern "C" fn h_c07_annotated() {
    history(2, true)
}

/// Pinned metrics: building lists nothing; registration is explicit; a further registration of
/// the same metric replaces its listing.
#[no_mangle]
pub extern "C" fn h_c07_pinned() {
    let n = sym::u64("n");
    let o = MetricBuilder::new("o").build(Alive::new(7));
    let wo = || Want { name: "o", desc: None, key: "", val: "", num: 7 };
    {
        let (p, e) = MetricBuilder::new("p").description("pd").metadata("k", "v").build_pinned(Alive::new(n));
        sym::check(listed(&[wo()]), "building without registering lists nothing");
        let p = std::pin::pin!(p);
        let how = sym::choose(4, "how");
        if how != 0 {
            p.as_ref().register(e);
            let wp = || Want { name: "p", desc: Some("pd"), key: "k", val: "v", num: n };
            sym::check(listed(&[wo(), wp()]), "a pinned metric is listed once registered");
            if how == 2 {
                p.as_ref().register(MetricBuilder::new("p2").into_entry());
                let wp = || Want { name: "p2", desc: None, key: "k", val: "v", num: n };
                sym::check(listed(&[wo(), wp()]), "registering again replaces the listing");
            }
            if how == 3 {
                // a second pinned metric with the same name
                let (q, e) = MetricBuilder::new("p").build_pinned(Alive::new(!n));
                let q = std::pin::pin!(q);
                Pin::as_ref(&q).register(e);
                let wq = || Want { name: "p", desc: None, key: "", val: "", num: !n };
                sym::check(listed(&[wo(), wp(), wq()]), "metrics of the same name are all listed");
            }
        }
        sym::cover("registered");
    }
    sym::check(listed(&[wo()]), "a dropped pinned metric is not listed");
    drop(o);
    sym::check(listed(&[]), "nothing is listed once all are dropped");
    // never registered, then dropped
    let _ = MetricBuilder::new("x").into_entry();
    let (q, e) = MetricBuilder::new("q").build_pinned(Alive::new(n));
    drop(q);
    drop(e);
    sym::check(listed(&[]), "building without registering lists nothing");
    sym::cover("end");
}

/// While an unregistered metric is being destroyed by its owner it is not listed.
#[no_mangle]
pub extern "C" fn h_c07_drop_order() {
    struct Spy;
    impl Metric for Spy {
        fn as_any(&self) -> Option<&dyn Any> {
            None
        }
        fn value(&self) -> Option<Value<'_>> {
            None
        }
    }
    impl Drop for Spy {
        fn drop(&mut self) {
            let m = metrics();
            for e in m.iter() {
                sym::check(e.name() != "spy", "a metric being destroyed is not listed");
            }
            sym::cover("destroyed");
        }
    }
    let boxed = sym::flag("boxed");
    let other = MetricBuilder::new("o").build(Counter::new());
    if boxed {
        let s = MetricBuilder::new("spy").build(Spy);
        sym::check(metrics().dynamic_metrics().len() == 2, "listed");
        drop(s);
    } else {
        let (s, e) = MetricBuilder::new("spy").build_pinned(Spy);
        let s = Box::pin(s);
        s.as_ref().register(e);
        sym::check(metrics().dynamic_metrics().len() == 2, "listed");
        drop(s);
    }
    sym::check(metrics().dynamic_metrics().len() == 1, "not listed any more");
    drop(other);
    sym::cover("end");
}

/// Threads register and drop metrics of their own; each sees its own listing, and the rest
/// stays as it was.
#[no_mangle]
pub extern "C" fn h_c07_race() {
    let n = sym::int(32, "n");
    let keep = MetricBuilder::new("keep").metadata("slot", "k").build(Alive::new(n));
    let here = |name: &str| {
        let m = metrics();
        let mut c = 0;
        for e in m.dynamic_metrics() {
            c += (e.name() == name) as usize;
        }
        c
    };
    let work = |i: usize| {
        let name = ["a", "b"][i];
        let x = builder(i, true, true);
        let _ = x;
        let x = MetricBuilder::new(name).build(Alive::new(i as u64 + 1));
        sym::check(here(name) == 1, "listed once its registration returned");
        drop(x);
        sym::check(here(name) == 0, "not listed once dropped");
        sym::check(here("keep") == 1, "others stay listed");
    };
    sym::par2(|| work(0), || work(1));
    sym::check(
        listed(&[Want { name: "keep", desc: None, key: "slot", val: "k", num: n }]),
        "exactly the registered, not yet dropped metrics are listed as registered",
    );
    drop(keep);
    sym::cover("end");
}
/// One thread drops a metric that another one registered while a third registers.
#[no_mangle]
pub extern "C" fn h_c07_handover() {
    let n = sym::int(32, "n");
    let a = MetricBuilder::new("a").build(Alive::new(n));
    let mut b = None;
    let br = &mut b;
    sym::par2(
        move || drop(a),
        move || {
            *br = Some(MetricBuilder::new("b").description("bd").build(Alive::new(n + 1)));
            let m = metrics();
            let mut c = 0;
            for e in m.dynamic_metrics() {
                c += (e.name() == "b") as usize;
                let _ = e.value();
            }
            sym::check(c == 1, "listed once its registration returned");
        },
    );
    sym::check(
        listed(&[Want { name: "b", desc: Some("bd"), key: "", val: "", num: n + 1 }]),
        "exactly the registered, not yet dropped metrics are listed as registered",
    );
    drop(b);
    sym::check(listed(&[]), "nothing is listed once all are dropped");
    sym::cover("end");
}

/// Owners dropped by a panic (or while another one is in flight) are dropped like any other.
#[no_mangle]
pub extern "C" fn h_c07_unwind() {
    let n = sym::int(32, "n");
    let keep = MetricBuilder::new("keep").build(Alive::new(n));
    let wk = || Want { name: "keep", desc: None, key: "", val: "", num: n };
    let mut out = None;
    let when = sym::choose(4, "when");
    let or = &mut out;
    let work = move || {
        let a = MetricBuilder::new("a").description("ad").build(Alive::new(n + 1));
        if when == 0 {
            panic!("first");
        }
        let (p, e) = MetricBuilder::new("p").build_pinned(Alive::new(n + 2));
        let p = Box::pin(p);
        if when == 1 {
            panic!("second");
        }
        p.as_ref().register(e);
        if when == 2 {
            panic!("third");
        }
        sym::check(
            listed(&[wk(), Want { name: "a", desc: Some("ad"), key: "", val: "", num: n + 1 }, Want { name: "p", desc: None, key: "", val: "", num: n + 2 }]),
            "exactly the registered, not yet dropped metrics are listed as registered",
        );
        // a metric registered by a destructor that runs during unwinding
        struct D<'a>(&'a mut Option<DynBoxedMetric<Alive>>, u64);
        impl Drop for D<'_> {
            fn drop(&mut self) {
                *self.0 = Some(MetricBuilder::new("late").build(Alive::new(self.1)));
            }
        }
        let _d = D(or, n + 3);
        drop(a);
        panic!("fourth");
    };
    if sym::flag("thread") {
        sym::join(unsafe { sym::spawn_borrow(move || sym::check(sym::panics(work), "the owner panicked")) });
    } else {
        sym::check(sym::panics(work), "the owner panicked");
    }
    if when == 3 {
        sym::check(listed(&[wk(), Want { name: "late", desc: None, key: "", val: "", num: n + 3 }]), "exactly the registered, not yet dropped metrics are listed as registered");
    } else {
        sym::check(listed(&[wk()]), "metrics dropped by a panic are not listed");
    }
    drop(out);
    drop(keep);
    sym::check(listed(&[]), "nothing is listed once all are dropped");
    sym::cover("end");
}

/// Metrics that lie next to each other in one allocation.
#[no_mangle]
pub extern "C" fn h_c07_adjacent() {
    const N: usize = 9;
    let n = sym::int(32, "n");
    let mut entries = vec![];
    let mut all = vec![];
    for i in 0..N {
        let (p, e) = MetricBuilder::new(["w", "x", "y", "x"][i % 4]).build_pinned(Counter::with_value(n + i as u64));
        all.push(p);
        entries.push(e);
    }
    let mut all = Pin::new(all.into_boxed_slice());
    let w = |i: usize| Want { name: ["w", "x", "y", "x"][i % 4], desc: None, key: "", val: "", num: n + i as u64 };
    for (i, e) in entries.into_iter().enumerate() {
        // the box is not moved out of until it is dropped
        let p = unsafe { Pin::new_unchecked(&all[i]) };
        p.register(e);
    }
    let every: Vec<Want> = (0..N).map(w).collect();
    sym::check(listed(&every), "exactly the registered, not yet dropped metrics are listed as registered");
    // drop one of them in place and put another one there
    let i = sym::choose(N, "which");
    let (p, e) = MetricBuilder::new("z").build_pinned(Counter::with_value(n + 99));
    unsafe {
        let at = &mut Pin::get_unchecked_mut(all.as_mut())[i] as *mut _;
        std::ptr::drop_in_place(at);
        let mut rest = vec![];
        for j in 0..N {
            if j != i {
                rest.push(w(j));
            }
        }
        sym::check(listed(&rest), "dropping one metric removes just that one");
        std::ptr::write(at, p);
        Pin::new_unchecked(&*at).register(e);
        rest.push(Want { name: "z", desc: None, key: "", val: "", num: n + 99 });
        sym::check(listed(&rest), "exactly the registered, not yet dropped metrics are listed as registered");
    }
    drop(all);
    sym::check(listed(&[]), "nothing is listed once all are dropped");
    sym::cover("end");
}

/// The old constructors, which go around the builder.
#[allow(deprecated)]
#[no_mangle]
pub extern "C" fn h_c07_old() {
    let n = sym::int(32, "n");
    let w = |name, k| Want { name, desc: None, key: "", val: "", num: n + k };
    let a = DynBoxedMetric::new(Alive::new(n), MetricBuilder::new("a").into_entry());
    sym::check(listed(&[w("a", 0)]), "a boxed metric is listed");
    {
        let p = std::pin::pin!(metriken_core::dynmetrics::DynPinnedMetric::new(Alive::new(n + 1)));
        sym::check(listed(&[w("a", 0)]), "building without registering lists nothing");
        p.as_ref().register(MetricBuilder::new("p").into_entry());
        sym::check(listed(&[w("a", 0), w("p", 1)]), "a pinned metric is listed once registered");
    }
    sym::check(listed(&[w("a", 0)]), "a dropped pinned metric is not listed");
    drop(a);
    sym::check(listed(&[]), "nothing is listed once all are dropped");
    sym::cover("end");
}
