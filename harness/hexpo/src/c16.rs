//! C16: parquet rows reproduce the snapshots cell by cell.
use crate::expo::*;
use crate::parq::*;
use crate::sym;
use metriken_exposition::*;
use std::time::Duration;

/// What one snapshot holds: per metric its reading, if present.
struct Row {
    v2: bool,
    ts: u64,
    dur: u64,
    c: Vec<Option<u64>>,
    g: Vec<Option<i64>>,
    h: Vec<Option<Vec<u64>>>,
}
fn instant(ns: u64) -> Duration {
    // a symbolic sub-second part over a concrete second
    Duration::new(ns / 1_000_000_000, (ns % 1_000_000_000) as u32)
}
impl Row {
    fn snapshot(&self, flip: bool) -> Snapshot {
        let mut c = vec![];
        for (i, v) in self.c.iter().enumerate() {
            if let Some(v) = v {
                c.push(counter(CN[i], *v, &[("k", "v")]));
            }
        }
        let mut g = vec![];
        for (i, v) in self.g.iter().enumerate() {
            if let Some(v) = v {
                g.push(gauge(GN[i], *v, &[]));
            }
        }
        let mut h = vec![];
        for (i, v) in self.h.iter().enumerate() {
            if let Some(v) = v {
                h.push(histo(HN[i], 0, v.len() as u8 - 1, v, &[]));
            }
        }
        if flip {
            c.reverse();
            g.reverse();
            h.reverse();
        }
        snap(self.v2, std::time::UNIX_EPOCH + instant(self.ts), instant(self.dur), map(&[]), c, g, h)
    }
}
fn row(tag: usize, nc: usize, ng: usize, nh: usize, base: u64) -> Row {
    row_of(tag, nc, ng, nh, base, sym::flag("v2"), 3)
}
fn row_of(tag: usize, nc: usize, ng: usize, nh: usize, base: u64, v2: bool, nb: usize) -> Row {
    let mut r = Row { v2, ts: 0, dur: 0, c: vec![], g: vec![], h: vec![] };
    let s = sym::u32(&format!("ns{tag}"));
    sym::assume(s < 1_000_000_000);
    r.ts = base * 1_000_000_000 + s as u64;
    r.dur = sym::u32(&format!("d{tag}")) as u64 & 0x1fff_ffff;
    for i in 0..nc {
        r.c.push(if sym::flag("c") { Some(sym::u64(&format!("c{tag}{i}"))) } else { None });
    }
    for i in 0..ng {
        r.g.push(if sym::flag("g") { Some(sym::i64(&format!("g{tag}{i}"))) } else { None });
    }
    for i in 0..nh {
        r.h.push(if sym::flag("h") { Some((0..nb).map(|k| sym::u64(&format!("h{tag}{i}{k}"))).collect()) } else { None });
    }
    r
}
fn opt<T>(o: Option<T>, f: impl Fn(T) -> Cell) -> Cell {
    match o {
        Some(x) => f(x),
        None => Cell::Null,
    }
}
fn verify(rows: &[Row], sparse_layout: bool) {
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    sym::check(t.0.closed, "the file is complete");
    sym::check(t.rows() == rows.len(), "one row per snapshot");
    let mut want = 2;
    let (nc, ng, nh) = if rows.is_empty() { (0, 0, 0) } else { (rows[0].c.len(), rows[0].g.len(), rows[0].h.len()) };
    let at = |name: &str, list: bool, signed: bool| -> usize {
        let c = t.col(name, list, signed);
        sym::check(c.is_some(), "the column exists once, with its type");
        c.unwrap_or(0)
    };
    let (ts, du) = (at("timestamp", false, false), at("duration", false, false));
    for (i, r) in rows.iter().enumerate() {
        sym::check(cell_eq(&t.cell(i, ts), &Cell::U(r.ts)), "timestamp in nanoseconds");
        sym::check(cell_eq(&t.cell(i, du), &if r.v2 { Cell::U(r.dur) } else { Cell::Null }), "duration in nanoseconds, or null");
    }
    for k in 0..nc {
        if rows.iter().any(|r| r.c[k].is_some()) {
            want += 1;
            let c = at(CN[k], false, false);
            for (i, r) in rows.iter().enumerate() {
                sym::check(cell_eq(&t.cell(i, c), &opt(r.c[k], Cell::U)), "counter cell");
            }
        }
    }
    for k in 0..ng {
        if rows.iter().any(|r| r.g[k].is_some()) {
            want += 1;
            let c = at(GN[k], false, true);
            for (i, r) in rows.iter().enumerate() {
                sym::check(cell_eq(&t.cell(i, c), &opt(r.g[k], Cell::I)), "gauge cell");
            }
        }
    }
    for k in 0..nh {
        if rows.iter().any(|r| r.h[k].is_some()) {
            if sparse_layout {
                want += 2;
                let a = at(&format!("{}:bucket_indices", HN[k]), true, false);
                let b = at(&format!("{}:bucket_counts", HN[k]), true, false);
                for (i, r) in rows.iter().enumerate() {
                    let s = r.h[k].as_ref().map(|h| sparse(h));
                    sym::check(cell_eq(&t.cell(i, a), &opt(s.clone(), |s| Cell::List(s.0))), "bucket indices cell");
                    sym::check(cell_eq(&t.cell(i, b), &opt(s, |s| Cell::List(s.1))), "bucket counts cell");
                }
            } else {
                want += 1;
                let a = at(&format!("{}:buckets", HN[k]), true, false);
                for (i, r) in rows.iter().enumerate() {
                    sym::check(cell_eq(&t.cell(i, a), &opt(r.h[k].clone(), Cell::List)), "buckets cell");
                }
            }
        }
    }
    sym::check(t.columns() == want, "no other column");
    for (i, _) in rows.iter().enumerate() {
        for c in 0..t.columns() {
            match t.cell(i, c) {
                Cell::U(x) => sym::observe(x),
                Cell::I(x) => sym::observe(x as u64),
                Cell::List(v) => {
                    sym::observe(v.len() as u64);
                    for x in v {
                        sym::observe(x)
                    }
                }
                _ => sym::observe(77),
            }
        }
    }
}
fn run(rows: Vec<Row>, sparse_layout: bool, batch: Option<usize>) {
    let snaps: Vec<Snapshot> = rows.iter().enumerate().map(|(i, r)| r.snapshot(i == 1)).collect();
    let mut o = options(sparse_layout);
    if let Some(b) = batch {
        o = o.max_batch_size(b);
    }
    match export(&snaps, o, None) {
        Ok(n) => sym::check(n == rows.len() as i64, "the number of rows reported"),
        Err(_) => sym::check(false, "exporting succeeds"),
    }
    verify(&rows, sparse_layout);
    sym::cover("end");
}


/// Two snapshots, every presence pattern of four metrics.
#[no_mangle]
pub extern "C" fn h_c16_two() {
    let rows = vec![row(0, 2, 1, 1, 1_700_000_000), row(1, 2, 1, 1, 1_700_000_001)];
    run(rows, false, None);
}
/// The sparse layout with two histograms.
#[no_mangle]
pub extern "C" fn h_c16_sparse() {
    let v2 = sym::flag("v2");
    let rows = vec![row_of(0, 1, 0, 2, 5, v2, 2), row_of(1, 0, 0, 2, 4, false, 2)];
    let rows = rows.into_iter().map(|mut r| { r.c.resize(1, None); r }).collect();
    run(rows, true, None);
}
/// Metrics that come and go over three snapshots (and go unordered in time).
#[no_mangle]
pub extern "C" fn h_c16_three() {
    let v2 = sym::flag("v2");
    let b = [9_000_000_000, 1_700_000_000, 0];
    let rows = (0..3).map(|i| row_of(i, 1, 1, 1, b[i], v2 ^ (i == 1), 2)).collect();
    run(rows, false, None);
}
/// Row groups of every size do not change the rows.
#[no_mangle]
pub extern "C" fn h_c16_groups() {
    let n = sym::choose(5, "rows");
    let b = 1 + sym::choose(4, "batch");
    let s = sym::flag("sparse");
    let rows = (0..n).map(|i| {
        let mut r = row_of(i, 0, 0, 0, 100 + i as u64, true, 2);
        r.c = vec![if i % 2 == 0 { Some(sym::u64(&format!("c{i}"))) } else { None }];
        r.h = vec![if i % 3 == 1 { None } else { Some(vec![sym::u64(&format!("h{i}")) | 1, 0, 1]) }];
        r
    }).collect();
    run(rows, s, Some(b));
}
/// Every representable time and duration.
#[no_mangle]
pub extern "C" fn h_c16_time() {
    let (s, n) = (sym::u64("s"), sym::u32("n"));
    let (ds, dn) = (sym::u64("ds"), sym::u32("dn"));
    // up to 2^64 ns
    sym::assume(s < 18_446_744_073);
    sym::assume(n < 1_000_000_000);
    sym::assume(ds < 18_446_744_073);
    sym::assume(dn < 1_000_000_000);
    let snaps = [snap(true, time(s, n), Duration::new(ds, dn), map(&[]), vec![], vec![], vec![])];
    sym::check(matches!(export(&snaps, options(false), None), Ok(1)), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    let (a, b) = (t.col("timestamp", false, false), t.col("duration", false, false));
    sym::check(a.is_some() && b.is_some() && t.columns() == 2 && t.rows() == 1, "timestamp and duration only");
    sym::check(cell_eq(&t.cell(0, a.unwrap_or(0)), &Cell::U(s * 1_000_000_000 + n as u64)), "timestamp in nanoseconds");
    sym::check(cell_eq(&t.cell(0, b.unwrap_or(0)), &Cell::U(ds * 1_000_000_000 + dn as u64)), "duration in nanoseconds");
    sym::cover("end");
}
/// The same name for a counter, a gauge and a histogram: three columns, no mixing.
#[no_mangle]
pub extern "C" fn h_c16_same_name() {
    let mut snaps = vec![];
    let mut want = vec![];
    for i in 0..2 {
        let (c, g) = (sym::u64(&format!("c{i}")), sym::i64(&format!("g{i}")));
        let h = [sym::u64(&format!("h{i}0")), sym::u64(&format!("h{i}1"))];
        let (hc, hg, hh) = (sym::flag("c"), sym::flag("g"), sym::flag("h"));
        snaps.push(snap(false, time(1, 0), Duration::ZERO, map(&[]),
            if hc { vec![counter("x", c, &[])] } else { vec![] },
            if hg { vec![gauge("x", g, &[])] } else { vec![] },
            if hh { vec![histo("x", 0, 1, &h, &[])] } else { vec![] }));
        want.push([if hc { Cell::U(c) } else { Cell::Null }, if hg { Cell::I(g) } else { Cell::Null }, if hh { Cell::List(h.to_vec()) } else { Cell::Null }]);
    }
    sym::check(matches!(export(&snaps, options(false), None), Ok(2)), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    for k in 0..3 {
        let c = t.col(["x", "x", "x:buckets"][k], k == 2, k == 1);
        let present = (0..2).any(|i| !matches!(want[i][k], Cell::Null));
        sym::check(c.is_some() == present, "one column per metric and kind");
        if let Some(c) = c {
            for i in 0..2 {
                sym::check(cell_eq(&t.cell(i, c), &want[i][k]), "cell of its own kind");
            }
        }
    }
    sym::cover("end");
}
/// Metrics named by their labels land in their columns in every snapshot.
#[no_mangle]
pub extern "C" fn h_c16_labels() {
    let sparse_layout = sym::flag("sparse");
    let ids = ["0", "1", "10"];
    let names = ["cpu/user/0", "cpu/user/1", "cpu/user/10"];
    let mut snaps = vec![];
    let mut want = vec![];
    for s in 0..2 {
        let (mut c, mut g, mut h, mut w) = (vec![], vec![], vec![], vec![]);
        for k in 0..3 {
            let v = sym::u64(&format!("v{s}{k}"));
            let here = sym::flag("here");
            w.push(if here { Some(v) } else { None });
            if here {
                // opaque snapshot names that differ between snapshots
                let n = format!("{}", s * 7 + 3 - k);
                let l = [("metric", "cpu"), ("state", "user"), ("id", ids[k]), ("unit", "ns")];
                match k {
                    0 | 1 => c.push(counter(&n, v, &l)),
                    _ => {
                        g.push(gauge(&n, v as i64, &l));
                        h.push(histo(&n, 0, 1, &[v, 1], &l));
                    }
                }
            }
        }
        want.push(w);
        snaps.push(snap(false, time(1, 0), Duration::ZERO, map(&[]), c, g, h));
    }
    sym::check(matches!(export(&snaps, options(sparse_layout), None), Ok(2)), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return;
    };
    let mut n = 2;
    for k in 0..3 {
        if (0..2).any(|s| want[s][k].is_some()) {
            n += 1;
            let c = t.col(names[k], false, k == 2);
            sym::check(c.is_some(), "the column is named by the labels");
            for s in 0..2 {
                sym::check(cell_eq(&t.cell(s, c.unwrap_or(0)), &opt(want[s][k], |v| if k == 2 { Cell::I(v as i64) } else { Cell::U(v) })), "cell of the labelled metric");
            }
            if k == 2 && !sparse_layout {
                n += 1;
                let c = t.col("cpu/user/10:buckets", true, false);
                sym::check(c.is_some(), "the histogram column is named by the labels");
                for s in 0..2 {
                    sym::check(cell_eq(&t.cell(s, c.unwrap_or(0)), &opt(want[s][k], |v| Cell::List(vec![v, 1]))), "cell of the labelled histogram");
                }
            }
            if k == 2 && sparse_layout {
                n += 2;
                let c = t.col("cpu/user/10:bucket_counts", true, false);
                sym::check(c.is_some() && t.col("cpu/user/10:bucket_indices", true, false).is_some(), "the histogram columns are named by the labels");
                for s in 0..2 {
                    sym::check(cell_eq(&t.cell(s, c.unwrap_or(0)), &opt(want[s][k], |v| Cell::List(sparse(&[v, 1]).1))), "cell of the labelled histogram");
                }
            }
        }
    }
    sym::check(t.columns() == n, "no other column");
    sym::cover("end");
}
