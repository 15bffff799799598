//! C20: serialised snapshots read back as what was written.
use crate::expo::*;
use crate::sym;
use crate::util::*;
use metriken_exposition::*;
use std::collections::HashMap;
use std::time::Duration;

fn maps(a: &HashMap<String, String>, b: &HashMap<String, String>) -> bool {
    let mut ok = a.len() == b.len();
    for (k, v) in b {
        ok &= opt_eq(a.get(k).map(|x| x.as_str()), Some(v));
    }
    ok
}
/// Compare what was read with what was written.
pub fn same(got: &Snapshot, want: &Snapshot) {
    let parts = |s: &Snapshot| match s {
        Snapshot::V1(s) => (1, s.systemtime, None, s.metadata.clone(), s.counters.clone(), s.gauges.clone(), s.histograms.clone()),
        Snapshot::V2(s) => (2, s.systemtime, Some(s.duration), s.metadata.clone(), s.counters.clone(), s.gauges.clone(), s.histograms.clone()),
    };
    let (a, b) = (parts(got), parts(want));
    sym::check(a.0 == b.0, "the same version");
    sym::check(a.1 == b.1, "the same time");
    if let (Some(x), Some(y)) = (a.2, b.2) {
        sym::check((x.as_secs() == y.as_secs()) & (x.subsec_nanos() == y.subsec_nanos()), "the same duration");
    }
    sym::check(maps(&a.3, &b.3), "the same metadata");
    sym::check(a.4.len() == b.4.len() && a.5.len() == b.5.len() && a.6.len() == b.6.len(), "the same metrics");
    let mut ok = true;
    for (x, y) in a.4.iter().zip(&b.4) {
        ok &= str_eq(&x.name, &y.name) & (x.value == y.value);
        ok &= maps(&x.metadata, &y.metadata);
        sym::observe(x.value);
    }
    sym::check(ok, "the same counters");
    let mut ok = true;
    for (x, y) in a.5.iter().zip(&b.5) {
        ok &= str_eq(&x.name, &y.name) & (x.value == y.value);
        ok &= maps(&x.metadata, &y.metadata);
        sym::observe(x.value as u64);
    }
    sym::check(ok, "the same gauges");
    let mut ok = true;
    for (x, y) in a.6.iter().zip(&b.6) {
        ok &= str_eq(&x.name, &y.name);
        ok &= maps(&x.metadata, &y.metadata);
        let (c, d) = (x.value.config(), y.value.config());
        ok &= c.grouping_power() == d.grouping_power() && c.max_value_power() == d.max_value_power() && c == d;
        let (p, q) = (x.value.as_slice(), y.value.as_slice());
        ok &= p.len() == q.len();
        for (m, n) in p.iter().zip(q) {
            ok &= m == n;
        }
    }
    sym::check(ok, "the same histograms");
}
/// Write, read back, compare.
fn trip(json: bool, s: &Snapshot) {
    if json {
        let Ok(b) = Snapshot::to_json(s) else {
            sym::check(false, "it serialises");
            return;
        };
        let mut lines = 0;
        for x in &b {
            lines += (*x == b'\n') as usize;
        }
        sym::check(lines == 1 && b.last() == Some(&b'\n'), "one newline-terminated line");
        match serde_json::from_slice::<Snapshot>(&b) {
            Ok(r) => same(&r, s),
            Err(_) => sym::check(false, "it reads back"),
        }
    } else {
        let Ok(b) = Snapshot::to_msgpack(s) else {
            sym::check(false, "it serialises");
            return;
        };
        sym::observe(b.len() as u64);
        match rmp_serde::from_slice::<Snapshot>(&b) {
            Ok(r) => same(&r, s),
            Err(_) => sym::check(false, "it reads back"),
        }
    }
    sym::cover("end");
}
fn plain(v2: bool, c: Vec<Counter>, g: Vec<Gauge>, h: Vec<Histogram>) -> Snapshot {
    snap(v2, time(1_700_000_000, 5), Duration::new(3, 7), map(&[]), c, g, h)
}
/// Every value of a counter and a gauge.
#[no_mangle]
pub extern "C" fn h_c20_mp_values() {
    let v2 = sym::flag("v2");
    let s = plain(v2, vec![counter("c", sym::u64("c"), &[])], vec![gauge("g", sym::i64("g"), &[])], vec![]);
    trip(false, &s);
}
/// Every time and duration.
#[no_mangle]
pub extern "C" fn h_c20_mp_time() {
    let v2 = sym::flag("v2");
    let secs = sym::u64("secs") & 0x7fff_ffff_ffff_ffff;
    let nanos = sym::u32("nanos");
    let ds = sym::u64("dsecs");
    let dn = sym::u32("dnanos");
    sym::assume(nanos < 1_000_000_000);
    sym::assume(dn < 1_000_000_000);
    trip(false, &snap(v2, time(secs, nanos), Duration::new(ds, dn), map(&[("k", "v")]), vec![], vec![], vec![]));
}
/// Histograms of several configurations with all contents.
#[no_mangle]
pub extern "C" fn h_c20_mp_hist() {
    let v2 = sym::flag("v2");
    let (g, p) = [(0u8, 1u8), (0, 2), (0, 3), (1, 2)][sym::choose(4, "config")];
    let n = histogram::Config::new(g, p).unwrap().total_buckets();
    let b: Vec<u64> = (0..n).map(|i| sym::u64(&format!("b{i}"))).collect();
    trip(false, &plain(v2, vec![], vec![], vec![histo("h", g, p, &b, &[("l", "")])]));
}
/// Larger histograms, with one free bucket.
#[no_mangle]
pub extern "C" fn h_c20_hist_wide() {
    let v2 = sym::flag("v2");
    let json = sym::flag("json");
    let (g, p) = [(0u8, 64u8), (3, 7), (2, 5), (5, 6)][sym::choose(4, "config")];
    let n = histogram::Config::new(g, p).unwrap().total_buckets();
    let mut b = vec![0u64; n];
    let i = sym::choose(3, "i");
    let x = sym::u64("x");
    b[[0, n / 2, n - 1][i]] = if json { x & 0xff } else { x };
    trip(json, &plain(v2, vec![], vec![], vec![histo("h", g, p, &b, &[]), histo("i", 0, 1, &[1, 2], &[])]));
}
fn texts(json: bool, n: usize) {
    let v2 = sym::flag("v2");
    let k = sym::choose(6, "where");
    let mut t = (0..6).map(|i| ["", "a", "bc", "d\u{e9}", "\"\\", "\u{1F600}\n"][i].to_string()).collect::<Vec<_>>();
    t[k] = text(n, "t");
    let m = |i: usize| -> HashMap<String, String> { [("k".to_string(), t[i].clone()), (String::new(), t[(i + 1) % 6].clone())].into() };
    let s = snap(
        v2,
        time(1, 0),
        Duration::ZERO,
        m(5),
        vec![Counter { name: t[0].clone(), value: 1, metadata: m(1) }],
        vec![Gauge { name: t[2].clone(), value: -1, metadata: HashMap::new() }],
        vec![Histogram { name: t[3].clone(), value: histogram::Histogram::from_buckets(0, 1, vec![0, 9]).unwrap(), metadata: m(4) }],
    );
    trip(json, &s);
}
/// `n` arbitrary characters of one chosen UTF-8 length each.
fn text(n: usize, tag: &str) -> String {
    let mut v = vec![];
    for i in 0..n {
        let w = 1 + sym::choose(4, "utf8len");
        let b: Vec<u8> = (0..w).map(|k| sym::u8(&format!("{tag}{i}.{k}"))).collect();
        let cont = |x: u8| 0x80 | (x & 0x3f);
        match w {
            1 => v.push(b[0] & 0x7f),
            2 => {
                sym::assume((b[0] & 0x1f) >= 2);
                v.extend([0xc0 | (b[0] & 0x1f), cont(b[1])]);
            }
            3 => {
                let (x, y) = (b[0] & 0xf, b[1] & 0x3f);
                // not overlong, no surrogate
                sym::assume(((x != 0) | (y >= 0x20)) & ((x != 0xd) | (y < 0x20)));
                v.extend([0xe0 | x, cont(y), cont(b[2])]);
            }
            _ => {
                let (x, y) = (b[0] & 7, b[1] & 0x3f);
                sym::assume((x <= 4) & ((x != 0) | (y >= 0x10)) & ((x != 4) | (y < 0x10)));
                v.extend([0xf0 | x, cont(y), cont(b[2]), cont(b[3])]);
            }
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Arbitrary text in every place that holds text.
#[no_mangle]
pub extern "C" fn h_c20_mp_text() {
    texts(false, 2);
}
#[no_mangle]
pub extern "C" fn h_c20_mp_text3() {
    texts(false, 3);
}
#[no_mangle]
pub extern "C" fn h_c20_json_text() {
    texts(true, 2);
}
/// Collections and strings around the sizes where the encoding changes.
#[no_mangle]
pub extern "C" fn h_c20_sizes() {
    let v2 = sym::flag("v2");
    let json = sym::flag("json");
    let n = [0usize, 1, 15, 16, 17][sym::choose(5, "n")];
    let what = sym::choose(5, "what");
    let x = sym::u8("x") as u64;
    let k = |i: usize| format!("k{i}");
    let mut s = (vec![], vec![], vec![], HashMap::new());
    match what {
        0 => s.0 = (0..n).map(|i| counter(&k(i), i as u64, &[])).collect(),
        1 => s.1 = (0..n).map(|i| gauge(&k(i), -(i as i64), &[])).collect(),
        2 => s.2 = (0..n).map(|i| histo(&k(i), 0, 1, &[i as u64, x], &[])).collect(),
        3 => s.3 = (0..n).map(|i| (k(i), k(i + 1))).collect(),
        _ => {
            let l = [31usize, 32, 255, 256, 65536][n % 15 % 5];
            s.0.push(counter(&"y".repeat(l), x, &[]));
        }
    }
    trip(json, &snap(v2, time(9, 9), Duration::new(1, 1), s.3, s.0, s.1, s.2));
}
const EXTREMES: [u64; 6] = [u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 53, (1 << 53) + 1];
/// JSON: a free 16-bit value, the values around every power of ten and two, and the extremes.
#[no_mangle]
pub extern "C" fn h_c20_json_values() {
    json_values(16);
}
#[no_mangle]
pub extern "C" fn h_c20_json_values20() {
    json_values(20);
}
fn json_values(bits: u32) {
    let v2 = sym::flag("v2");
    let x = match sym::choose(3, "range") {
        0 => sym::int(bits, "x"),
        1 => EXTREMES[sym::choose(6, "extreme")],
        _ => 10u64.pow(sym::choose(20, "pow") as u32) - sym::choose(2, "less") as u64,
    };
    let neg = sym::flag("neg");
    let g = if neg { (x as i64).wrapping_neg() } else { x as i64 };
    let s = plain(v2, vec![counter("c", x, &[])], vec![gauge("g", g, &[])], vec![]);
    trip(true, &s);
}
#[no_mangle]
pub extern "C" fn h_c20_json_time() {
    let v2 = sym::flag("v2");
    let secs = [0, 1, 1 << 33, (1 << 63) - 1][sym::choose(4, "secs")];
    let nanos = [0, 1, 999_999_999, 500_000_000][sym::choose(4, "nanos")];
    let ds = [0, 1, 3600, u64::MAX][sym::choose(4, "ds")];
    let dn = sym::int(8, "dn") as u32;
    trip(true, &snap(v2, time(secs, nanos), Duration::new(ds, dn), map(&[("k", "v")]), vec![], vec![], vec![histo("h", 0, 2, &[1, 2, u64::MAX], &[])]));
}
