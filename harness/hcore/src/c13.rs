//! C13: default formatting shows exactly the name, plus labels for Prometheus.
use crate::stat::*;
use crate::sym;
use crate::util::*;
use metriken::*;

/// `text` is exactly name{k="v", ...} for some order of `pairs`.
fn prom_ok(text: &str, name: &str, pairs: &[(String, String)]) -> bool {
    if pairs.is_empty() {
        return str_eq(text, name);
    }
    let n = pairs.len();
    // all orders of up to five pairs
    let mut order: Vec<usize> = (0..n).collect();
    let mut ok = false;
    loop {
        let mut s: Vec<u8> = vec![];
        s.extend_from_slice(name.as_bytes());
        s.push(b'{');
        for (i, k) in order.iter().enumerate() {
            if i > 0 {
                s.extend_from_slice(b", ");
            }
            s.extend_from_slice(pairs[*k].0.as_bytes());
            s.extend_from_slice(b"=\"");
            s.extend_from_slice(pairs[*k].1.as_bytes());
            s.push(b'"');
        }
        s.push(b'}');
        ok |= bytes_eq(text.as_bytes(), &s);
        // next permutation
        let mut i = n - 1;
        while i > 0 && order[i - 1] >= order[i] {
            i -= 1;
        }
        if i == 0 {
            return ok;
        }
        let mut j = n - 1;
        while order[j] <= order[i - 1] {
            j -= 1;
        }
        order.swap(i - 1, j);
        order[i..].reverse();
    }
}

#[no_mangle]
pub extern "C" fn h_c13_dynamic() {
    let name = string(sym::choose(3, "len"), "name");
    let mut pairs: Vec<(String, String)> = vec![];
    let mut b = MetricBuilder::new(name.clone());
    for (i, k) in ["", "op", "a\"{"].iter().enumerate() {
        if sym::flag("has") {
            let v = string([0, 1, 2][i], &format!("v{i}."));
            pairs.push((k.to_string(), v.clone()));
            b = b.metadata(*k, v);
        }
    }
    if sym::flag("desc") {
        b = b.description("about");
    }
    let m = b.build(Counter::new());
    {
        let v = metrics();
        let e = v.dynamic_metrics().next().unwrap();
        sym::check(str_eq(&e.formatted(Format::Simple), &name), "the simple format is exactly the name");
        sym::check(prom_ok(&e.formatted(Format::Prometheus), &name, &pairs), "the Prometheus format is the name and the labels");
        sym::check(str_eq(&default_formatter(e, Format::Simple), &name), "the simple format is exactly the name");
        sym::check(prom_ok(&default_formatter(e, Format::Prometheus), &name, &pairs), "the Prometheus format is the name and the labels");
    }
    drop(m);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c13_static() {
    let own = |l: &[(&str, &str)]| l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let (name, pairs) = match sym::choose(4, "which") {
        0 => ("s.counter", own(&[("op", "read"), ("unit", "ops")])),
        1 => ("s.gauge", vec![]),
        2 => ("s.lazy.counter", own(&[("", ""), ("a", ""), ("b", "1"), ("c", "22"), ("a b", "x\"y")])),
        _ => ("s.hist", vec![]),
    };
    let ok = with_entry(name, |e| {
        sym::check(str_eq(&e.formatted(Format::Simple), name), "the simple format is exactly the name");
        sym::check(prom_ok(&e.formatted(Format::Prometheus), name, &pairs), "the Prometheus format is the name and the labels");
    });
    sym::check(ok, "one entry");
    sym::cover("end");
}
/// A custom formatter replaces the default entirely.
#[no_mangle]
pub extern "C" fn h_c13_custom() {
    let name = string(2, "name");
    fn nothing(_: &MetricEntry, f: Format) -> String {
        match f {
            Format::Simple => String::new(),
            _ => "p".into(),
        }
    }
    let m = MetricBuilder::new(name.clone()).metadata("k", "v").formatter(nothing).build(Counter::new());
    {
        let v = metrics();
        let e = v.dynamic_metrics().next().unwrap();
        sym::check(e.formatted(Format::Simple).is_empty(), "a custom formatter replaces the default");
        sym::check(e.formatted(Format::Prometheus) == "p", "a custom formatter replaces the default");
        sym::check(str_eq(&default_formatter(e, Format::Simple), &name), "the default formatter is still the default one");
        sym::check(
            prom_ok(&default_formatter(e, Format::Prometheus), &name, &[("k".into(), "v".into())]),
            "the default formatter is still the default one",
        );
    }
    drop(m);
    let ok = with_entry("s.custom", |e| {
        sym::check(e.formatted(Format::Simple) == "custom/s.custom", "a custom formatter replaces the default");
        sym::check(e.formatted(Format::Prometheus) == "prom/s.custom", "a custom formatter replaces the default");
    });
    sym::check(ok, "one entry");
    sym::cover("end");
}
