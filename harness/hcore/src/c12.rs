//! C12: everything given to the builder is visible on the registered entry.
use crate::stat::{custom_fmt, with_entry};
use crate::sym;
use crate::util::*;
use metriken::*;

#[derive(PartialEq)]
struct Tag1(u64);
#[derive(PartialEq)]
struct Tag2(u64);

struct Provides {
    tag: Tag2,
    meta: Metadata,
}
impl Metric for Provides {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        r.provide_ref(&self.tag).provide_ref(&self.meta);
    }
}

struct Model {
    desc: Option<String>,
    meta: Vec<(&'static str, String)>,
    tag1: Option<u64>,
    tag2: Option<u64>,
    fmt: usize, // 0 default, 1 custom_fmt, 2 other_fmt
}
fn other_fmt(e: &MetricEntry, f: Format) -> String {
    match f {
        Format::Simple => format!("{}!", e.metadata().get("k").unwrap_or("none")),
        _ => e.name().len().to_string(),
    }
}

fn show(e: &MetricEntry, name: &str, m: &Model, provided: bool) {
    sym::check(str_eq(e.name(), name), "the name given");
    sym::check(opt_eq(e.description(), m.desc.as_deref()), "the description given, or none");
    if !provided {
        return;
    }
    let md = e.metadata();
    sym::check(md.len() == m.meta.len(), "the metadata has exactly the keys given");
    for (k, v) in &m.meta {
        sym::check(opt_eq(md.get(k), Some(v)), "the last value given for a metadata key");
    }
    sym::check(e.request_ref::<Tag1>().map(|t| t.0) == m.tag1, "the last object provided of that type");
    sym::check(e.request_ref::<Tag2>().map(|t| t.0) == m.tag2, "the last object provided of that type");
    sym::check(e.request_value::<Tag1>().is_none(), "provided objects are found by reference");
    let s = e.formatted(Format::Simple);
    let p = e.formatted(Format::Prometheus);
    match m.fmt {
        0 => {
            sym::check(str_eq(&s, name), "default formatting when no formatter was given");
            sym::check(p.len() >= name.len() && str_eq(&p[..name.len()], name), "default formatting when no formatter was given");
            sym::check((p.len() == name.len()) == m.meta.is_empty(), "default formatting when no formatter was given");
        }
        1 => {
            sym::check(str_eq(&s, &format!("custom/{name}")), "formatting through the given formatter");
            sym::check(str_eq(&p, &format!("prom/{name}")), "formatting through the given formatter");
        }
        _ => {
            let k = m.meta.iter().find(|(k, _)| *k == "k").map(|(_, v)| v.clone()).unwrap_or("none".into());
            sym::check(str_eq(&s, &format!("{k}!")), "formatting through the given formatter");
            sym::check(str_eq(&p, &name.len().to_string()), "formatting through the given formatter");
        }
    }
}

fn calls(n: usize) -> (MetricBuilder, String, Model) {
    let name = string(2, "name");
    let mut b = MetricBuilder::new(name.clone());
    let mut m = Model { desc: None, meta: vec![], tag1: None, tag2: None, fmt: 0 };
    for i in 0..n {
        match sym::choose(8, "call") {
            0 => {
                let d = string([1, 0, 2, 3][i], ["d0", "d1", "d2", "d3"][i]);
                m.desc = Some(d.clone());
                b = b.description(d);
            }
            c @ (1 | 2 | 3) => {
                let k = ["", "k", "key2"][c - 1];
                let v = string([1, 2, 0, 1][i], ["v0", "v1", "v2", "v3"][i]);
                m.meta.retain(|(x, _)| *x != k);
                m.meta.push((k, v.clone()));
                b = b.metadata(k, v);
            }
            4 => {
                let x = sym::u64(["x0", "x1", "x2", "x3"][i]);
                m.tag1 = Some(x);
                b = b.provide(Tag1(x));
            }
            5 => {
                let x = sym::u64(["x0", "x1", "x2", "x3"][i]);
                m.tag2 = Some(x);
                b = b.provide(Tag2(x));
            }
            6 => {
                m.fmt = 1;
                b = b.formatter(custom_fmt);
            }
            _ => {
                m.fmt = 2;
                b = b.formatter(other_fmt);
            }
        }
    }
    (b, name, m)
}
fn check_dyn(name: &str, m: &Model) {
    let v = metrics();
    let mut n = 0;
    for e in v.dynamic_metrics() {
        n += 1;
        show(e, name, m, true);
    }
    sym::check(n == 1, "exactly one entry");
}
fn run(n: usize) {
    let (b, name, m) = calls(n);
    match sym::choose(4, "how") {
        0 => {
            let x = b.build(Counter::new());
            check_dyn(&name, &m);
            let x = Box::new(x);
            check_dyn(&name, &m);
            drop(x);
        }
        1 => {
            let (x, e) = b.build_pinned(Gauge::new());
            // before registration the entry already has its name and description
            show(&e, &name, &m, false);
            let x = std::pin::pin!(x);
            x.as_ref().register(e);
            check_dyn(&name, &m);
        }
        2 => {
            // a metric with provisions of its own: what the builder was given comes first
            let own = sym::u64("own");
            let x = b.build(Provides { tag: Tag2(own), meta: Metadata::new([("own".to_string(), "o".to_string())].into()) });
            let m = Model { tag2: m.tag2.or(Some(own)), ..m };
            check_dyn(&name, &m);
            drop(x);
        }
        _ => {
            let e = b.into_entry();
            show(&e, &name, &m, false);
        }
    }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c12_calls2() {
    run(2)
}
#[no_mangle]
pub extern "C" fn h_c12_calls3() {
    run(3)
}
#[no_mangle]
pub extern "C" fn h_c12_calls4() {
    run(4)
}

/// Two builders at once do not mix.
#[no_mangle]
pub extern "C" fn h_c12_two() {
    let (x, y) = (sym::u64("x"), sym::u64("y"));
    let a = MetricBuilder::new("a").metadata("k", "1").provide(Tag1(x)).formatter(custom_fmt).build(Counter::new());
    let b = MetricBuilder::new(String::from("b")).description("b!").metadata("k", "2").provide(Tag1(y)).build(Counter::new());
    let ma = Model { desc: None, meta: vec![("k", "1".into())], tag1: Some(x), tag2: None, fmt: 1 };
    let mb = Model { desc: Some("b!".into()), meta: vec![("k", "2".into())], tag1: Some(y), tag2: None, fmt: 0 };
    sym::check(with_entry("a", |e| show(e, "a", &ma, true)), "one entry");
    sym::check(with_entry("b", |e| show(e, "b", &mb, true)), "one entry");
    drop(a);
    sym::check(with_entry("b", |e| show(e, "b", &mb, true)), "one entry");
    drop(b);
    sym::cover("end");
}
/// The same for statically declared metrics: what the attribute was given.
#[no_mangle]
pub extern "C" fn h_c12_static() {
    let m = |desc: Option<&str>, meta: &[(&'static str, &str)], fmt| Model {
        desc: desc.map(|s| s.to_string()),
        meta: meta.iter().map(|(k, v)| (*k, v.to_string())).collect(),
        tag1: None,
        tag2: None,
        fmt,
    };
    let l: Vec<(&str, Model)> = vec![
        ("s.counter", m(Some("a counter"), &[("op", "read"), ("unit", "ops")], 0)),
        ("s.gauge", m(None, &[], 0)),
        ("s.hist", m(Some("an atomic histogram"), &[], 0)),
        ("s.rwhist", m(None, &[], 0)),
        ("s.lazy.counter", m(None, &[("", ""), ("a", ""), ("b", "1"), ("c", "22"), ("a b", "x\"y")], 0)),
        ("s.lazy.gauge", m(None, &[], 0)),
        ("s.custom", m(None, &[("k", "v")], 1)),
    ];
    sym::check(metrics().static_metrics().len() == l.len(), "one entry per declared metric");
    let (n, x) = &l[sym::choose(l.len(), "which")];
    sym::check(with_entry(n, |e| show(e, n, x, true)), "one entry per declared metric");
    sym::cover("end");
}
