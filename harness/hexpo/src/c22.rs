//! C22: sparse and dense histogram exports carry the same distribution.
use crate::expo::*;
use crate::parq::*;
use crate::sym;
use metriken_exposition::*;
use std::time::Duration;

fn cells(snaps: &[Snapshot], sparse: bool) -> Vec<(Cell, Cell)> {
    sym::check(matches!(export(snaps, options(sparse), None), Ok(n) if n == snaps.len() as i64), "exporting succeeds");
    let Some(t) = Table::take() else {
        sym::check(false, "exactly one file is written");
        return vec![];
    };
    let (a, b) = if sparse { ("h:bucket_indices", "h:bucket_counts") } else { ("h:buckets", "h:buckets") };
    let (a, b) = (t.col(a, true, false), t.col(b, true, false));
    sym::check(a.is_some() && b.is_some(), "the histogram's columns");
    sym::check(t.columns() == if sparse { 4 } else { 3 }, "no other column");
    (0..snaps.len()).map(|i| (t.cell(i, a.unwrap_or(0)), t.cell(i, b.unwrap_or(0)))).collect()
}
fn run(g: u8, p: u8, rows: Vec<Option<Vec<u64>>>) {
    let snaps: Vec<Snapshot> = rows
        .iter()
        .map(|r| snap(true, time(1, 0), Duration::ZERO, map(&[]), vec![], vec![], match r {
            Some(b) => vec![histo("h", g, p, b, &[])],
            None => vec![],
        }))
        .collect();
    let d = cells(&snaps, false);
    let s = cells(&snaps, true);
    for (i, r) in rows.iter().enumerate() {
        match r {
            None => sym::check(matches!((&d[i].0, &s[i].0, &s[i].1), (Cell::Null, Cell::Null, Cell::Null)), "null where the metric is missing"),
            Some(b) => {
                sym::check(cell_eq(&d[i].0, &Cell::List(b.clone())), "the dense export holds every bucket");
                let (Cell::List(ix), Cell::List(ct)) = (&s[i].0, &s[i].1) else {
                    sym::check(false, "the sparse export holds lists");
                    return;
                };
                sym::check(ix.len() == ct.len(), "as many counts as indices");
                let mut back = vec![0u64; b.len()];
                let mut ok = true;
                for k in 0..ix.len().min(ct.len()) {
                    let x = sym::concretize(ix[k]) as usize;
                    ok &= k == 0 || (sym::concretize(ix[k - 1]) as usize) < x;
                    ok &= ct[k] != 0;
                    if x < back.len() {
                        back[x] = ct[k];
                    } else {
                        ok = false;
                    }
                }
                sym::check(ok, "non-empty buckets by strictly increasing index");
                sym::check(cell_eq(&Cell::List(back), &Cell::List(b.clone())), "rebuilding the sparse export gives the dense one");
                sym::observe(ix.len() as u64);
                for c in ct {
                    sym::observe(*c);
                }
            }
        }
    }
    sym::cover("end");
}
fn hist(g: u8, p: u8, tag: usize) -> Vec<u64> {
    let n = histogram::Config::new(g, p).unwrap().total_buckets();
    (0..n).map(|k| sym::u64(&format!("b{tag}.{k}"))).collect()
}
/// One histogram of each small configuration, all contents.
#[no_mangle]
pub extern "C" fn h_c22_configs() {
    let (g, p) = [(0, 1), (0, 2), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (0, 7)][sym::choose(8, "config")];
    let rows = vec![Some(hist(g, p, 0))];
    run(g, p, rows);
}
/// A wide configuration: two free buckets at free positions, all others empty.
#[no_mangle]
pub extern "C" fn h_c22_wide() {
    let (g, p) = [(0u8, 64u8), (3, 10)][sym::choose(2, "config")];
    let n = histogram::Config::new(g, p).unwrap().total_buckets();
    let mut b = vec![0; n];
    let i = sym::choose(n, "i");
    b[i] = sym::u64("x");
    b[n - 1 - i] = sym::u64("y");
    run(g, p, vec![Some(b)]);
}
/// Many buckets: two free buckets around the positions where a narrower index would wrap.
fn many(g: u8, p: u8) {
    let n = histogram::Config::new(g, p).unwrap().total_buckets();
    let at: Vec<usize> = [0, 127, 255, 256, 511, 32767, 32768, 65535, 65536, n / 2, n - 2].into_iter().filter(|i| *i < n - 1).collect();
    let mut b = vec![0; n];
    let i = at[sym::choose(at.len(), "i")];
    b[i] = sym::u64("x");
    b[n - 1] = sym::u64("y");
    run(g, p, vec![Some(b)]);
}
#[no_mangle]
pub extern "C" fn h_c22_many() {
    many(5, 64);
}
#[no_mangle]
pub extern "C" fn h_c22_huge() {
    many(11, 64);
}
/// Rows with and without the histogram.
#[no_mangle]
pub extern "C" fn h_c22_rows() {
    let mut rows = vec![];
    for i in 0..3 {
        rows.push(if sym::flag("has") { Some(hist(0, 1, i)) } else { None });
    }
    sym::assume(rows.iter().any(|r| r.is_some()));
    run(0, 1, rows);
}
