//! C17: schema, annotations and file metadata follow the stated precedence.
use crate::expo::*;
use crate::parq::*;
use crate::sym;
use crate::util::*;
use metriken_exposition::*;
use parquet::basic::Compression;
use parquet::schema::types::ColumnPath;
use std::collections::HashMap;
use std::time::Duration;

/// Exactly these pairs.
fn map_is(m: &HashMap<String, String>, want: &[(&str, &str)]) -> bool {
    let mut ok = m.len() == want.len();
    for (k, v) in want {
        ok &= opt_eq(m.get(*k).map(|x| x.as_str()), Some(v));
    }
    ok
}
/// A metric's labels come from the first snapshot that has it, plus its type.
#[no_mangle]
pub extern "C" fn h_c17_labels() {
    let kind = sym::choose(4, "kind");
    let mut snaps = vec![];
    let mut first: Option<Vec<(String, String)>> = None;
    let n = if sym::flag("empty") { 0 } else { 3 };
    for i in 0..n {
        let here = sym::flag("here");
        let mut l: Vec<(String, String)> = vec![];
        if here {
            if sym::flag("a") {
                l.push(("a".to_string(), string(1, &format!("a{i}."))));
            }
            if sym::flag("b") {
                l.push((["b", "metric_type", "unit"][i].to_string(), string(2, &format!("b{i}."))));
            }
            if first.is_none() {
                first = Some(l.clone());
            }
        }
        let m: HashMap<String, String> = l.into_iter().collect();
        let (mut c, mut g, mut h) = (vec![], vec![], vec![]);
        if here {
            match kind {
                0 => c.push(Counter { name: "x".to_string(), value: 1, metadata: m }),
                1 => g.push(Gauge { name: "x".to_string(), value: 1, metadata: m }),
                _ => h.push(Histogram { name: "x".to_string(), value: histogram::Histogram::from_buckets(0, 1, vec![0, 1]).unwrap(), metadata: m }),
            }
        }
        snaps.push(snap(i == 1, time(1, 0), Duration::ZERO, map(&[]), c, g, h));
    }
    sym::check(matches!(export(&snaps, options(kind == 3), None), Ok(k) if k == n as i64), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    for (n, ty, nullable) in [("timestamp", "timestamp", false), ("duration", "duration", true)] {
        let c = t.col(n, false, false);
        sym::check(c.is_some(), "the time columns exist");
        let c = c.unwrap_or(0);
        sym::check(map_is(t.field_metadata(c), &[("metric_type", ty), ("unit", "nanoseconds")]), "annotations of the time columns");
        sym::check(t.0.schema.field(c).is_nullable() == nullable, "nullability of the time columns");
    }
    let names: &[&str] = [&["x"][..], &["x"], &["x:buckets"], &["x:bucket_indices", "x:bucket_counts"]][kind];
    let ty = ["counter", "gauge", "histogram", "sparse_histogram"][kind];
    sym::check(t.columns() == if first.is_some() { 2 + names.len() } else { 2 }, "one column per metric");
    if let Some(l) = &first {
        let mut want: Vec<(&str, &str)> = vec![("metric_type", ty)];
        for (k, v) in l {
            if k != "metric_type" {
                want.push((k, v));
            }
        }
        for n in names {
            let c = t.col(n, kind >= 2, kind == 1);
            sym::check(c.is_some(), "the metric's column and data type");
            let c = c.unwrap_or(0);
            sym::check(map_is(t.field_metadata(c), &want), "labels of the first appearance and the metric type");
            sym::check(t.0.schema.field(c).is_nullable(), "metric columns are nullable");
        }
    }
    sym::cover("end");
}
fn file_metadata(t: &Table) -> Option<HashMap<String, String>> {
    let kv = t.0.properties.key_value_metadata();
    let mut m = HashMap::new();
    let Some(kv) = kv else {
        return Some(m);
    };
    for e in kv {
        let v = e.value.clone()?;
        if m.insert(e.key.clone(), v).is_some() {
            return None;
        }
    }
    Some(m)
}
/// File metadata: the first snapshot that has any, overridden by the caller's.
#[no_mangle]
pub extern "C" fn h_c17_file() {
    let keys = ["k", "l"];
    let mut want: Vec<(&str, String)> = vec![];
    let mut have = false;
    let mut snaps = vec![];
    for i in 0..3 {
        let mut m: HashMap<String, String> = HashMap::new();
        let mut mine = vec![];
        for k in keys {
            if sym::flag(k) {
                let v = string(1, &format!("{k}{i}."));
                m.insert(k.to_string(), v.clone());
                mine.push((k, v));
            }
        }
        if !have && !mine.is_empty() {
            have = true;
            want = mine;
        }
        snaps.push(snap(i == 2, time(1, 0), Duration::ZERO, m, vec![], vec![], vec![]));
    }
    let given = match sym::choose(4, "given") {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![("l", string(2, "gl"))]),
        _ => Some(vec![("l", string(2, "gl")), ("z", string(0, "gz"))]),
    };
    let gm = given.as_ref().map(|g| g.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<HashMap<_, _>>());
    for (k, v) in given.unwrap_or_default() {
        want.retain(|w| w.0 != k);
        want.push((k, v));
    }
    sym::check(matches!(export(&snaps, options(false), gm), Ok(3)), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    let got = file_metadata(&t);
    sym::check(got.is_some(), "no key twice");
    let w: Vec<(&str, &str)> = want.iter().map(|(k, v)| (*k, v.as_str())).collect();
    sym::check(map_is(&got.unwrap_or_default(), &w), "file metadata by precedence");
    sym::cover("end");
}
/// Every compression level and batch size; builder calls in any order.
#[no_mangle]
pub extern "C" fn h_c17_options() {
    let level = sym::u32("level") as i32;
    let batch = sym::u64("batch") as usize;
    sym::assume(batch != 0);
    let how = sym::choose(4, "how");
    let z = ParquetCompression::zstd(level);
    let valid = (level >= 1) & (level <= 22);
    sym::check(z.is_ok() == valid, "exactly the levels 1 to 22 are accepted");
    let n = ParquetOptions::new();
    let (o, compression, size, sparse) = match (how, z) {
        (0, Ok(z)) => (n.compression(z).max_batch_size(batch), Some(level), batch, false),
        (1, Ok(z)) => (n.histogram_type(ParquetHistogramType::Sparse).max_batch_size(batch).compression(z), Some(level), batch, true),
        (2, _) => (n.compression(ParquetCompression::none()).histogram_type(ParquetHistogramType::Sparse).histogram_type(ParquetHistogramType::Standard), None, 50_000, false),
        _ => (n.max_batch_size(7).max_batch_size(batch), Some(3), batch, false),
    };
    let snaps = [snap(false, time(1, 0), Duration::ZERO, map(&[]), vec![counter("c", 1, &[])], vec![], vec![histo("h", 0, 1, &[0, 5], &[])])];
    sym::check(matches!(export(&snaps, o, None), Ok(1)), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    for n in ["c", "h:buckets", "timestamp"] {
        let got = match t.0.properties.compression(&ColumnPath::from(n)) {
            Compression::ZSTD(l) => Some(l.compression_level()),
            Compression::UNCOMPRESSED => None,
            _ => Some(-1),
        };
        sym::check(got.is_some() == compression.is_some() && got.unwrap_or(0) == compression.unwrap_or(0), "the chosen compression");
    }
    sym::check(t.0.properties.max_row_group_size() == size, "the chosen batch size");
    sym::check(t.col("h:buckets", true, false).is_some() != sparse && t.col("h:bucket_counts", true, false).is_some() == sparse, "the chosen histogram layout");
    sym::cover("end");
}
/// Row groups hold the chosen number of rows.
#[no_mangle]
pub extern "C" fn h_c17_groups() {
    let n = sym::choose(6, "rows");
    let b = 1 + sym::choose(4, "batch");
    let snaps: Vec<Snapshot> = (0..n).map(|i| snap(false, time(i as u64, 0), Duration::ZERO, map(&[]), vec![], vec![], vec![])).collect();
    sym::check(matches!(export(&snaps, options(false).max_batch_size(b), None), Ok(k) if k == n as i64), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    let g = &t.0.row_groups;
    let mut left = n;
    let mut ok = true;
    for x in g {
        ok &= *x == left.min(b);
        left -= (*x).min(left);
    }
    sym::check(ok && left == 0, "row groups of the chosen size");
    sym::cover("end");
}
