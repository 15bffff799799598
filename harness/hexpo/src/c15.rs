//! C15: a metric's column name is a deterministic function of its labels.
use crate::expo::*;
use crate::parq::*;
use crate::sym;
use crate::util::*;
use metriken_exposition::*;
use std::collections::HashMap;
use std::time::Duration;

/// The documented name.
fn expect(snapshot_name: &str, labels: &[(&str, String)]) -> Vec<u8> {
    let get = |k: &str| labels.iter().find(|l| l.0 == k).map(|l| l.1.as_bytes());
    let Some(m) = get("metric") else {
        return snapshot_name.as_bytes().to_vec();
    };
    let mut out = m.to_vec();
    let mut add = |v: &[u8]| {
        out.push(b'/');
        out.extend_from_slice(v);
    };
    for k in ["name", "op", "state", "direction"] {
        if let Some(v) = get(k) {
            add(v);
        }
    }
    let mut rest: Vec<&(&str, String)> = labels
        .iter()
        .filter(|l| !["metric", "name", "op", "state", "direction", "unit", "grouping_power", "max_value_power", "id"].contains(&l.0))
        .collect();
    rest.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    for l in rest {
        add(l.1.as_bytes());
    }
    if let Some(v) = get("id") {
        add(v);
    }
    out
}
fn names_of(kind: usize, snaps: Vec<Snapshot>) -> Vec<String> {
    let mut schema = ParquetSchema::new();
    for s in snaps {
        schema.push(s);
    }
    let w = schema.finalize(std::io::sink(), options(false), None);
    sym::check(w.is_ok(), "the schema is accepted");
    drop(w);
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return vec![];
    };
    let mut out = vec![];
    for f in t.0.schema.fields().iter().skip(2) {
        let n = f.name();
        if kind == 2 {
            sym::check(n.len() >= 8 && str_eq(&n[n.len().saturating_sub(8)..], ":buckets"), "the histogram column's suffix");
            out.push(n[..n.len().saturating_sub(8)].to_string());
        } else {
            out.push(n.clone());
        }
    }
    out
}
fn one(kind: usize, name: &str, labels: &[(&str, String)]) -> Snapshot {
    let m: HashMap<String, String> = labels.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let (mut c, mut g, mut h) = (vec![], vec![], vec![]);
    match kind {
        0 => c.push(Counter { name: name.to_string(), value: 1, metadata: m }),
        1 => g.push(Gauge { name: name.to_string(), value: 1, metadata: m }),
        _ => h.push(Histogram { name: name.to_string(), value: histogram::Histogram::from_buckets(0, 1, vec![0, 1]).unwrap(), metadata: m }),
    }
    snap(false, time(1, 0), Duration::ZERO, map(&[]), c, g, h)
}
fn subset(kind: usize, always: &[&'static str], keys: &[&'static str]) {
    let name = string(2, "n");
    let mut labels: Vec<(&str, String)> = vec![];
    for k in always {
        labels.push((k, string(2, &format!("{k}."))));
    }
    let shift = sym::choose(3, "lengths");
    for (i, k) in keys.iter().enumerate() {
        if sym::flag(&format!("has.{k}")) {
            labels.push((k, string([1, 2, 0][(i + shift) % 3], &format!("v{k}."))));
        }
    }
    let names = names_of(kind, vec![one(kind, &name, &labels)]);
    sym::check(names.len() == 1 && bytes_eq(names[0].as_bytes(), &expect(&name, &labels)), "the documented column name");
    for n in &names {
        sym::observe_str(n);
    }
    sym::cover("end");
}
/// The ordered labels, id and the ones to be left out.
#[no_mangle]
pub extern "C" fn h_c15_known() {
    subset(0, &[], &["metric", "name", "op", "state", "direction", "id", "unit", "grouping_power", "max_value_power"]);
}
/// Other labels, before, between and after the known ones in key order.
#[no_mangle]
pub extern "C" fn h_c15_other() {
    subset(1, &["metric"], &["zone", "a", "Metric", "id", "ids", "op", "nam", "unit"]);
}
#[no_mangle]
pub extern "C" fn h_c15_histogram() {
    subset(2, &[], &["metric", "grouping_power", "max_value_power", "id", "direction", "name", "description", ""]);
}
/// Two metrics of one kind with their own labels, given in either order and in two snapshots:
/// the same columns.
#[no_mangle]
pub extern "C" fn h_c15_two() {
    let kind = sym::choose(3, "kind");
    let flip = sym::flag("flip");
    let labels = |i: usize| -> Vec<(&str, String)> {
        let mut l = vec![];
        for (k, v) in [("metric", "m"), ("op", ["r", "w"][i]), ("b", "x"), ("c", "y")] {
            if sym::flag(k) {
                l.push((k, v.to_string()));
            }
        }
        if flip {
            l.reverse();
        }
        l
    };
    let (a, b) = (labels(0), labels(1));
    let (ea, eb) = (expect("p", &a), expect("q", &b));
    let s1 = one(kind, "p", &a);
    let s2 = one(kind, "q", &b);
    let names = names_of(kind, if flip { vec![s2, s1.clone(), s1] } else { vec![s1, s2] });
    let n = if ea == eb { 1 } else { 2 };
    sym::check(names.len() == n, "one column per distinct name");
    sym::check(names.iter().any(|x| bytes_eq(x.as_bytes(), &ea)), "the first metric's column");
    sym::check(names.iter().any(|x| bytes_eq(x.as_bytes(), &eb)), "the second metric's column");
    sym::cover("end");
}
