//! C18: the snapshot accessors expose the stored data, for both versions.
use crate::expo::*;
use crate::sym;
use crate::util::*;
use metriken_exposition::*;

fn counters_ok(a: &[Counter], n: usize, v: &[u64]) -> bool {
    let mut ok = a.len() == n;
    for i in 0..n.min(a.len()) {
        ok &= a[i].value == v[i];
        ok &= str_eq(&a[i].name, CN[i]);
        ok &= a[i].metadata.len() == 1 && opt_eq(a[i].metadata.get("l").map(|x| x.as_str()), Some(CN[i]));
    }
    ok
}
fn gauges_ok(a: &[Gauge], n: usize, v: &[i64]) -> bool {
    let mut ok = a.len() == n;
    for i in 0..n.min(a.len()) {
        ok &= a[i].value == v[i];
        ok &= str_eq(&a[i].name, GN[i]);
        ok &= a[i].metadata.is_empty();
    }
    ok
}
fn histograms_ok(a: &[Histogram], n: usize, v: &[u64]) -> bool {
    let mut ok = a.len() == n;
    for i in 0..n.min(a.len()) {
        let s = a[i].value.as_slice();
        ok &= s.len() == 4;
        for k in 0..4.min(s.len()) {
            ok &= s[k] == v[i * 4 + k];
        }
        ok &= str_eq(&a[i].name, HN[i]);
    }
    ok
}

#[no_mangle]
pub extern "C" fn h_c18_accessors() {
    let v2 = sym::flag("v2");
    let secs = sym::u64("secs") & 0x3fff_ffff_ffff;
    let nanos = sym::u32("nanos");
    sym::assume(nanos < 1_000_000_000);
    let ds = sym::u64("dsecs");
    let dn = sym::u32("dnanos");
    sym::assume(dn < 1_000_000_000);
    let nc = sym::choose(3, "nc");
    let ng = sym::choose(3, "ng");
    let nh = sym::choose(2, "nh");
    let nm = sym::choose(2, "nm");
    let cv: Vec<u64> = (0..nc).map(|i| sym::u64(&format!("c{i}"))).collect();
    let gv: Vec<i64> = (0..ng).map(|i| sym::u64(&format!("g{i}")) as i64).collect();
    let hv: Vec<u64> = (0..nh * 4).map(|i| sym::u64(&format!("h{i}"))).collect();
    let counters: Vec<Counter> = (0..nc).map(|i| counter(CN[i], cv[i], &[("l", CN[i])])).collect();
    let gauges: Vec<Gauge> = (0..ng).map(|i| gauge(GN[i], gv[i], &[])).collect();
    let histograms: Vec<Histogram> = (0..nh).map(|i| histo(HN[i], 0, 3, &hv[i * 4..i * 4 + 4], &[])).collect();
    let metadata = if nm == 1 { map(&[("k", "v")]) } else { map(&[]) };
    let t = time(secs, nanos);
    let d = std::time::Duration::new(ds, dn);
    let mut s = snap(v2, t, d, metadata, counters, gauges, histograms);
    // three accesses in any order, then everything
    let mut taken = [false; 4];
    for _ in 0..3 {
        let k = sym::choose(6, "access");
        access(&mut s, k, &mut taken, v2, t, d, nm, (nc, &cv), (ng, &gv), (nh, &hv));
    }
    for k in 0..6 {
        access(&mut s, k, &mut taken, v2, t, d, nm, (nc, &cv), (ng, &gv), (nh, &hv));
    }
    sym::check(matches!(s, Snapshot::V2(_)) == v2, "the version stays");
    sym::cover("end");
}

#[allow(clippy::too_many_arguments)]
fn access(s: &mut Snapshot, k: usize, taken: &mut [bool; 4], v2: bool, t: std::time::SystemTime, d: std::time::Duration, nm: usize, c: (usize, &[u64]), g: (usize, &[i64]), h: (usize, &[u64])) {
    match k {
        0 => {
            let m = s.metadata();
            let n = if taken[0] { 0 } else { nm };
            sym::check(m.len() == n && (n == 0 || opt_eq(m.get("k").map(|x| x.as_str()), Some("v"))), "metadata");
            taken[0] = true;
        }
        1 => {
            let a = s.counters();
            sym::check(counters_ok(&a, if taken[1] { 0 } else { c.0 }, c.1), "counters");
            taken[1] = true;
        }
        2 => {
            let a = s.gauges();
            sym::check(gauges_ok(&a, if taken[2] { 0 } else { g.0 }, g.1), "gauges");
            taken[2] = true;
        }
        3 => {
            let a = s.histograms();
            sym::check(histograms_ok(&a, if taken[3] { 0 } else { h.0 }, h.1), "histograms");
            taken[3] = true;
        }
        4 => sym::check(same_time(s.systemtime(), t), "systemtime"),
        _ => {
            let ok = match s.duration() {
                None => !v2,
                Some(x) => v2 & (x.as_secs() == d.as_secs()) & (x.subsec_nanos() == d.subsec_nanos()),
            };
            sym::check(ok, "duration");
        }
    }
}
