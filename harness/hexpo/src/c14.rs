//! C14: a snapshot lists exactly the enabled, admitted metrics with their readings.
use crate::stat::*;
use crate::sym;
use crate::util::*;
use metriken::*;
use metriken_exposition as ex;
use metriken_exposition::{Snapshot, SnapshotterBuilder};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::SystemTime;

enum Want {
    C(u64),
    G(i64),
    H(u8, u8, Vec<u64>),
}
struct Item {
    name: String,
    value: Want,
    labels: Vec<(String, String)>,
}
fn item(name: &str, value: Want, labels: &[(&str, &str)]) -> Item {
    Item { name: name.to_string(), value, labels: labels.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() }
}
fn labels_ok(m: &HashMap<String, String>, want: &[(String, String)], h: Option<(u8, u8)>) -> bool {
    let mut ok = m.len() == want.len() + if h.is_some() { 2 } else { 0 };
    for (k, v) in want {
        ok &= opt_eq(m.get(k).map(|x| x.as_str()), Some(v));
    }
    if let Some((g, p)) = h {
        ok &= opt_eq(m.get("grouping_power").map(|x| x.as_str()), Some(&g.to_string()));
        ok &= opt_eq(m.get("max_value_power").map(|x| x.as_str()), Some(&p.to_string()));
    }
    ok
}
fn verify(mut s: Snapshot, want: &[Item], meta: &[(String, String)], from: SystemTime, to: SystemTime) {
    let t = s.systemtime();
    sym::check(from <= t && t <= to, "the time is within the call");
    sym::check(labels_ok(&s.metadata(), meta, None), "the snapshotter's own metadata");
    let (c, g, h) = (s.counters(), s.gauges(), s.histograms());
    let (mut nc, mut ng, mut nh) = (0, 0, 0);
    for w in want {
        match &w.value {
            Want::C(v) => {
                nc += 1;
                let f: Vec<&ex::Counter> = c.iter().filter(|x| x.name.len() == w.name.len() && str_eq(&x.name, &w.name)).collect();
                sym::check(f.len() == 1, "each counter once");
                for x in f {
                    sym::check(x.value == *v, "the counter's reading");
                    sym::check(labels_ok(&x.metadata, &w.labels, None), "the counter's labels");
                    sym::observe(x.value);
                }
            }
            Want::G(v) => {
                ng += 1;
                let f: Vec<&ex::Gauge> = g.iter().filter(|x| x.name.len() == w.name.len() && str_eq(&x.name, &w.name)).collect();
                sym::check(f.len() == 1, "each gauge once");
                for x in f {
                    sym::check(x.value == *v, "the gauge's reading");
                    sym::check(labels_ok(&x.metadata, &w.labels, None), "the gauge's labels");
                    sym::observe(x.value as u64);
                }
            }
            Want::H(gp, mp, v) => {
                nh += 1;
                let f: Vec<&ex::Histogram> = h.iter().filter(|x| x.name.len() == w.name.len() && str_eq(&x.name, &w.name)).collect();
                sym::check(f.len() == 1, "each histogram once");
                for x in f {
                    let b = x.value.as_slice();
                    let mut d = (b.len() != v.len()) as u64;
                    for i in 0..b.len().min(v.len()) {
                        d |= b[i] ^ v[i];
                    }
                    sym::check(d == 0, "the histogram's buckets");
                    sym::check(x.value.config().grouping_power() == *gp && x.value.config().max_value_power() == *mp, "the histogram's configuration");
                    sym::check(labels_ok(&x.metadata, &w.labels, Some((*gp, *mp))), "the histogram's labels");
                }
            }
        }
    }
    sym::check(c.len() == nc, "no other counter");
    sym::check(g.len() == ng, "no other gauge");
    sym::check(h.len() == nh, "no other histogram");
}

static ADMIT: AtomicU64 = AtomicU64::new(0);
const NAMES: [&str; 9] = ["s.counter", "s.gauge", "s.hist", "s.rwhist", "s.lazy.counter", "s.lazy.gauge", "s.custom", "d.counter", "d.hist"];
fn admit(e: &MetricEntry) -> bool {
    let i = NAMES.iter().position(|n| *n == e.name()).unwrap();
    ADMIT.load(SeqCst) >> i & 1 == 1
}
const LAZY_LABELS: [(&str, &str); 5] = [("", ""), ("a", ""), ("b", "1"), ("c", "22"), ("a b", "x\"y")];

/// Every state of every kind of metric.
#[no_mangle]
pub extern "C" fn h_c14_states() {
    let mut want = vec![];
    let x = sym::u64("counter");
    S_COUNTER.set(x);
    want.push(item("s.counter", Want::C(x), &[("op", "read"), ("unit", "ops"), ("description", "a counter")]));
    let x = sym::i64("gauge");
    S_GAUGE.set(x);
    want.push(item("s.gauge", Want::G(x), &[]));
    if sym::flag("hist") {
        let _ = S_HIST.increment(5);
        let _ = S_HIST.increment(0);
        let _ = S_HIST.increment(5);
        want.push(item("s.hist", Want::H(0, 3, vec![1, 0, 2, 0].into_iter().take(4).collect()), &[("description", "an atomic histogram")]));
        let b = S_HIST.load().unwrap();
        want.last_mut().unwrap().value = Want::H(0, 3, b.as_slice().to_vec());
    }
    match sym::choose(3, "rwhist") {
        0 => {}
        1 => {
            sym::check(S_RWHIST.update_from(&[1]).is_err(), "wrong length");
        }
        _ => {
            let b: Vec<u64> = (0..4).map(|i| sym::u64(&format!("b{i}"))).collect();
            sym::check(S_RWHIST.update_from(&b).is_ok(), "right length");
            want.push(item("s.rwhist", Want::H(0, 3, b), &[]));
        }
    }
    if sym::flag("lazyc") {
        let x = sym::u64("lazy_counter");
        S_LAZYC.add(x);
        want.push(item("s.lazy.counter", Want::C(x), &LAZY_LABELS));
    }
    if sym::flag("lazyg") {
        let x = sym::i64("lazy_gauge");
        S_LAZYG.sub(x);
        want.push(item("s.lazy.gauge", Want::G(0i64.wrapping_sub(x)), &[]));
    }
    let x = sym::u64("custom");
    let k = sym::choose(4, "custom_kind") as u64;
    S_CUSTOM.set(sym::flag("enabled"), false, k, x);
    match k {
        1 => want.push(item("custom/s.custom", Want::C(x), &[("k", "v")])),
        2 => want.push(item("custom/s.custom", Want::G(x as i64), &[("k", "v")])),
        _ => {}
    }
    let mut b = SnapshotterBuilder::new();
    let mut meta = vec![];
    if sym::flag("meta") {
        let v = string(2, "m");
        b = b.metadata("version".to_string(), "old".to_string()).metadata("version".to_string(), v.clone()).metadata("a".to_string(), String::new());
        meta = vec![("version".to_string(), v), ("a".to_string(), String::new())];
    }
    let s = b.build();
    for _ in 0..2 {
        let from = SystemTime::now();
        let r = s.snapshot();
        let to = SystemTime::now();
        sym::check(matches!(r, Snapshot::V1(_)) || r.duration().is_some(), "a snapshot");
        verify(r, &want, &meta, from, to);
    }
    sym::cover("end");
}

/// Every decision of the filter over static and dynamic metrics.
#[no_mangle]
pub extern "C" fn h_c14_filter() {
    let x = sym::u64("x");
    S_COUNTER.set(x);
    S_GAUGE.set(x as i64);
    let _ = S_HIST.increment(1);
    let hb = S_HIST.load().unwrap().as_slice().to_vec();
    sym::check(S_RWHIST.update_from(&[x, 1, 2, 3]).is_ok(), "right length");
    S_LAZYC.set(x);
    S_LAZYG.set(x as i64);
    S_CUSTOM.set(true, true, 1, x);
    let v = string(1, "v");
    let d = MetricBuilder::new("d.counter").metadata("k", v.clone()).description("dyn").build(Counter::with_value(x));
    let h = MetricBuilder::new("d.hist").metadata("k", "w").build(AtomicHistogram::new(1, 3));
    let _ = h.increment(6);
    let db = h.load().unwrap().as_slice().to_vec();
    let mut want = vec![];
    let mut mask = 0u64;
    for i in 0..9 {
        if sym::flag("admit") {
            mask |= 1 << i;
            want.push(match i {
                0 => item("s.counter", Want::C(x), &[("op", "read"), ("unit", "ops"), ("description", "a counter")]),
                1 => item("s.gauge", Want::G(x as i64), &[]),
                2 => item("s.hist", Want::H(0, 3, hb.clone()), &[("description", "an atomic histogram")]),
                3 => item("s.rwhist", Want::H(0, 3, vec![x, 1, 2, 3]), &[]),
                4 => item("s.lazy.counter", Want::C(x), &LAZY_LABELS),
                5 => item("s.lazy.gauge", Want::G(x as i64), &[]),
                6 => item("custom/s.custom", Want::C(x), &[("k", "v")]),
                7 => item("d.counter", Want::C(x), &[("k", &v), ("description", "dyn")]),
                _ => item("d.hist", Want::H(1, 3, db.clone()), &[("k", "w")]),
            });
        }
    }
    ADMIT.store(mask, SeqCst);
    let s = SnapshotterBuilder::new().filter(admit).build();
    let from = SystemTime::now();
    let r = s.snapshot();
    let to = SystemTime::now();
    verify(r, &want, &[], from, to);
    drop((d, h));
    sym::cover("end");
}

fn only_d(e: &MetricEntry) -> bool {
    e.name().starts_with("d.")
}
/// Dynamic metrics of every kind appear with what their builder was given and are gone after the drop.
#[no_mangle]
pub extern "C" fn h_c14_dynamic() {
    let x = sym::u64("x");
    let kind = sym::choose(5, "kind");
    let name = format!("d.{}", string(1, "n"));
    let mut b = MetricBuilder::new(name.clone());
    let mut labels: Vec<(String, String)> = vec![];
    if sym::flag("desc") {
        let d = string(1, "d");
        b = b.description(d.clone());
        labels.push(("description".to_string(), d));
    }
    for k in ["", "id"] {
        if sym::flag("label") {
            let v = string(1, &format!("v{k}"));
            b = b.metadata(k, v.clone());
            labels.push((k.to_string(), v));
        }
    }
    let mut shown = name.clone();
    if sym::flag("formatter") {
        b = b.formatter(|e, f| match f {
            Format::Simple => format!("F{}", e.name()),
            _ => "wrong".to_string(),
        });
        shown = format!("F{name}");
    }
    let s = SnapshotterBuilder::new().filter(only_d).build();
    let mut snaps = vec![];
    let now = SystemTime::now;
    let mut t = vec![now()];
    let value = match kind {
        0 => {
            let m = b.build(Counter::with_value(x));
            snaps.push(s.snapshot());
            t.push(now());
            drop(m);
            Some(Want::C(x))
        }
        1 => {
            let m = b.build(Gauge::new());
            m.sub(x as i64);
            snaps.push(s.snapshot());
            t.push(now());
            drop(m);
            Some(Want::G(0i64.wrapping_sub(x as i64)))
        }
        2 => {
            let m = b.build(RwLockHistogram::new(1, 2));
            let _ = m.update_from(&[x, 1, 2, 3]);
            snaps.push(s.snapshot());
            t.push(now());
            drop(m);
            Some(Want::H(1, 2, vec![x, 1, 2, 3]))
        }
        3 => {
            let m = b.build(AtomicHistogram::new(1, 2));
            snaps.push(s.snapshot());
            t.push(now());
            drop(m);
            None
        }
        _ => {
            let m: DynBoxedMetric<LazyCounter> = b.build(LazyCounter::new(Counter::default));
            snaps.push(s.snapshot());
            t.push(now());
            m.add(x);
            drop(m);
            None
        }
    };
    let after = s.snapshot();
    t.push(now());
    verify(after, &[], &[], t[1], t[2]);
    let want: Vec<Item> = value.into_iter().map(|value| Item { name: shown.clone(), value, labels: labels.clone() }).collect();
    verify(snaps.pop().unwrap(), &want, &[], t[0], t[1]);
    sym::cover("end");
}
/// A snapshot while another thread updates and drops metrics: readings are ones the metric had.
#[no_mangle]
pub extern "C" fn h_c14_race() {
    let x = sym::u64("x");
    let y = sym::u64("y");
    let d = MetricBuilder::new("d.a").build(Counter::with_value(x));
    let keep = MetricBuilder::new("d.b").build(Gauge::with_value(y as i64));
    let t = sym::spawn(move || {
        d.add(1);
        drop(d);
    });
    let s = SnapshotterBuilder::new().filter(only_d).build();
    let mut r = s.snapshot();
    sym::join(t);
    let c = r.counters();
    let g = r.gauges();
    sym::check(c.len() <= 1, "at most the one counter");
    for k in &c {
        sym::check(str_eq(&k.name, "d.a"), "its name");
        sym::check((k.value == x) | (k.value == x.wrapping_add(1)), "a value it had");
    }
    sym::check(g.len() == 1 && g[0].value == y as i64, "the other metric is unaffected");
    sym::observe(c.len() as u64);
    let mut r = s.snapshot();
    sym::check(r.counters().is_empty() && r.gauges().len() == 1, "dropped metrics are gone");
    drop(keep);
    sym::cover("end");
}

/// Labels that have the keys the snapshot itself uses: the description and the powers are the
/// metric's real ones.
#[no_mangle]
pub extern "C" fn h_c14_collide() {
    let x = sym::u64("x");
    let kind = sym::choose(4, "kind");
    let mut b = MetricBuilder::new("d.m");
    let mut labels: Vec<(String, String)> = vec![];
    for k in ["description", "grouping_power", "max_value_power", "unit"] {
        if sym::flag("label") {
            let v = string(1, &format!("{k}."));
            b = b.metadata(k, v.clone());
            if kind < 2 || !k.ends_with("power") {
                labels.push((k.to_string(), v));
            }
        }
    }
    if sym::flag("desc") {
        let d = string(sym::choose(2, "dlen"), "d");
        b = b.description(d.clone());
        labels.retain(|l| l.0 != "description");
        labels.push(("description".to_string(), d));
    }
    let s = SnapshotterBuilder::new().filter(only_d).build();
    let from = SystemTime::now();
    let (r, value) = match kind {
        0 => {
            let _m = b.build(Counter::with_value(x));
            (s.snapshot(), Want::C(x))
        }
        1 => {
            let _m = b.build(Gauge::with_value(x as i64));
            (s.snapshot(), Want::G(x as i64))
        }
        2 => {
            let m = b.build(RwLockHistogram::new(1, 2));
            let _ = m.update_from(&[x, 1, 2, 3]);
            (s.snapshot(), Want::H(1, 2, vec![x, 1, 2, 3]))
        }
        _ => {
            let m = b.build(AtomicHistogram::new(1, 2));
            let _ = m.increment(x & 3);
            let want = m.load().unwrap().as_slice().to_vec();
            (s.snapshot(), Want::H(1, 2, want))
        }
    };
    let to = SystemTime::now();
    verify(r, &[Item { name: "d.m".to_string(), value, labels }], &[], from, to);
    sym::cover("end");
}
/// Metrics of the same name, of one kind or of two: one item each, with its own reading and labels.
#[no_mangle]
pub extern "C" fn h_c14_same_name() {
    let n = 2 + sym::choose(2, "n");
    let same_label = sym::flag("same_label");
    let mut keep_c = vec![];
    let mut keep_g = vec![];
    let (mut wc, mut wg) = (vec![], vec![]);
    for i in 0..n {
        let x = sym::u64("x");
        let l = if same_label { "l".to_string() } else { format!("l{i}") };
        let b = MetricBuilder::new("d.m").metadata("k", l.clone());
        if sym::flag("gauge") {
            keep_g.push(b.build(Gauge::with_value(x as i64)));
            wg.push((x as i64, l));
        } else {
            keep_c.push(b.build(Counter::with_value(x)));
            wc.push((x, l));
        }
    }
    let s = SnapshotterBuilder::new().filter(only_d).build();
    let mut r = s.snapshot();
    let (c, g) = (r.counters(), r.gauges());
    sym::check(c.len() == wc.len(), "one item per counter");
    sym::check(g.len() == wg.len(), "one item per gauge");
    for (i, w) in wc.iter().enumerate() {
        // how often this reading is expected and found
        let (mut want, mut got) = (0u64, 0u64);
        for j in 0..wc.len() {
            want += (str_eq(&wc[j].1, &w.1) & (wc[j].0 == w.0)) as u64;
        }
        for k in &c {
            got += (opt_eq(k.metadata.get("k").map(|x| x.as_str()), Some(&w.1)) & (k.value == w.0)) as u64;
        }
        sym::check(want == got, "each counter's reading with its labels");
        sym::check(c[i].name == "d.m" && c[i].metadata.len() == 1, "its name");
    }
    for (i, w) in wg.iter().enumerate() {
        let (mut want, mut got) = (0u64, 0u64);
        for j in 0..wg.len() {
            want += (str_eq(&wg[j].1, &w.1) & (wg[j].0 == w.0)) as u64;
        }
        for k in &g {
            got += (opt_eq(k.metadata.get("k").map(|x| x.as_str()), Some(&w.1)) & (k.value == w.0)) as u64;
        }
        sym::check(want == got, "each gauge's reading with its labels");
        sym::check(g[i].name == "d.m" && g[i].metadata.len() == 1, "its name");
    }
    drop((keep_c, keep_g));
    sym::cover("end");
}

/// A filter that panics ends the call, and nothing else.
#[no_mangle]
pub extern "C" fn h_c14_panic() {
    static AT: AtomicU64 = AtomicU64::new(0);
    fn filter(e: &MetricEntry) -> bool {
        if AT.fetch_sub(1, SeqCst) == 0 {
            panic!("filter");
        }
        e.name() == "d.counter" || e.name() == "later"
    }
    let x = sym::u64("x");
    let d = MetricBuilder::new("d.counter").build(Counter::with_value(x));
    let s = SnapshotterBuilder::new().filter(filter).build();
    let at = sym::choose(STATICS + 2, "at");
    AT.store(at as u64, SeqCst);
    let from = SystemTime::now();
    if at <= STATICS {
        sym::check(sym::panics(|| s.snapshot()), "the filter panicked");
    } else {
        let r = s.snapshot();
        verify(r, &[item("d.counter", Want::C(x), &[])], &[], from, SystemTime::now());
    }
    AT.store(1000, SeqCst);
    let y = sym::u64("y");
    let l = MetricBuilder::new("later").build(Counter::with_value(y));
    let from = SystemTime::now();
    let r = s.snapshot();
    verify(r, &[item("d.counter", Want::C(x), &[]), item("later", Want::C(y), &[])], &[], from, SystemTime::now());
    drop(d);
    let r = s.snapshot();
    verify(r, &[item("later", Want::C(y), &[])], &[], from, SystemTime::now());
    drop(l);
    sym::cover("end");
}
