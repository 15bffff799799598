//! C19: converting a msgpack stream equals exporting the snapshots directly.
use crate::expo::*;
use crate::parq::*;
use crate::sym;
use crate::util::*;
use metriken_exposition::*;
use parquet::schema::types::ColumnPath;
use std::collections::HashMap;
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::time::Duration;

fn same_map(a: &HashMap<String, String>, b: &HashMap<String, String>) -> bool {
    let mut ok = a.len() == b.len();
    for (k, v) in b {
        ok &= opt_eq(a.get(k).map(|x| x.as_str()), Some(v));
    }
    ok
}
fn file_map(t: &Table) -> HashMap<String, String> {
    let kv = t.0.properties.key_value_metadata().cloned().unwrap_or_default();
    let n = kv.len();
    let m: HashMap<String, String> = kv.into_iter().map(|x| (x.key, x.value.unwrap_or_default())).collect();
    sym::check(m.len() == n, "no metadata key twice");
    m
}
/// The same columns, rows, cells, metadata and options.
fn same(got: &Table, want: &Table) {
    sym::check(got.0.closed && want.0.closed, "complete files");
    sym::check(got.columns() == want.columns(), "as many columns");
    sym::check(got.rows() == want.rows(), "as many rows");
    for (i, f) in want.0.schema.fields().iter().enumerate() {
        let mut at = None;
        let mut n = 0;
        for (j, g) in got.0.schema.fields().iter().enumerate() {
            if g.name().len() == f.name().len() && str_eq(g.name(), f.name()) && g.data_type() == f.data_type() {
                at = Some(j);
                n += 1;
            }
        }
        sym::check(n == 1, "each column once");
        let Some(j) = at else { return };
        let g = got.0.schema.field(j);
        sym::check(g.is_nullable() == f.is_nullable(), "the column's nullability");
        sym::check(same_map(g.metadata(), f.metadata()), "the column's annotations");
        for r in 0..want.rows().min(got.rows()) {
            sym::check(cell_eq(&got.cell(r, j), &want.cell(r, i)), "the same cell");
        }
    }
    sym::check(same_map(&file_map(got), &file_map(want)), "the same file metadata");
    let p = ColumnPath::from("x");
    sym::check(got.0.properties.compression(&p) == want.0.properties.compression(&p), "the same compression");
    sym::check(got.0.properties.max_row_group_size() == want.0.properties.max_row_group_size(), "the same batch size");
    sym::check(got.0.row_groups == want.0.row_groups, "the same row groups");
}
/// Export the snapshots directly.
fn direct(snaps: &[Snapshot], o: ParquetOptions, m: &HashMap<String, String>) -> Option<Table> {
    let r = export(snaps, o, Some(m.clone()));
    sym::check(matches!(r, Ok(n) if n == snaps.len() as i64), "exporting succeeds");
    Table::take()
}
fn converter(o: ParquetOptions, m: &HashMap<String, String>) -> MsgpackToParquet {
    let mut c = MsgpackToParquet::with_options(o);
    for (k, v) in m {
        c = c.metadata(k.clone(), v.clone());
    }
    c
}
fn stream(snaps: &[Snapshot]) -> Vec<u8> {
    let mut out = vec![];
    for s in snaps {
        out.extend(Snapshot::to_msgpack(s).unwrap());
    }
    out
}
/// The three snapshots the streams are made of.
fn template(i: usize, v2: bool, x: u64) -> Snapshot {
    match i {
        0 => snap(v2, time(1_700_000_000, 7), Duration::new(0, 9), map(&[("s", "1")]), vec![counter("c", x, &[("op", "r")])], vec![], vec![]),
        1 => snap(v2, time(2, 0), Duration::new(1, 0), map(&[]), vec![], vec![gauge("g", x as i64, &[]), gauge("k", -1, &[("metric", "mm"), ("id", "3")])], vec![]),
        _ => snap(v2, time(3, 3), Duration::ZERO, map(&[("t", "2")]), vec![counter("c", 1, &[("op", "w")])], vec![], vec![histo("h", 0, 1, &[x, 0], &[])]),
    }
}
fn settings() -> (ParquetOptions, HashMap<String, String>) {
    match sym::choose(3, "options") {
        0 => (ParquetOptions::new(), map(&[])),
        1 => (options(true).max_batch_size(1), map(&[("s", "mine"), ("", "")])),
        _ => (options(false).max_batch_size(2).compression(ParquetCompression::none()), map(&[("z", "q")])),
    }
}
/// Convert `b` (which is the encoding of `snaps`) and compare with the direct export.
fn compare(r: impl Read + Seek, snaps: &[Snapshot], o: ParquetOptions, m: HashMap<String, String>) {
    let n = converter(o.clone(), &m).convert_file_handle(r, std::io::sink());
    sym::check(matches!(n, Ok(k) if k == snaps.len() as i64), "converting reports the number of snapshots");
    let got = Table::take();
    let want = direct(snaps, o, &m);
    match (got, want) {
        (Some(g), Some(w)) => same(&g, &w),
        _ => sym::check(false, "exactly one file is written"),
    }
    sym::cover("end");
}
/// Streams of 0 to 2 snapshots of either version, in any order, with free values.
#[no_mangle]
pub extern "C" fn h_c19_equal() {
    let n = sym::choose(3, "n");
    let (o, m) = settings();
    let snaps: Vec<Snapshot> = (0..n)
        .map(|i| {
            let k = sym::choose(3, "which");
            let v2 = if i == 0 { sym::flag("v2") } else { k == 1 };
            template(k, v2, if i == 1 { sym::u64("x") } else { sym::int(16, &format!("y{i}")) })
        })
        .collect();
    let b = stream(&snaps);
    compare(Cursor::new(b), &snaps, o, m);
}
/// Three snapshots in any order.
#[no_mangle]
pub extern "C" fn h_c19_three() {
    let v = sym::flag("v2");
    let sparse = sym::flag("sparse");
    let snaps: Vec<Snapshot> = (0..3)
        .map(|i| template(sym::choose(3, "which"), v ^ (i == 1), if i == 2 { sym::int(16, "x") } else { i as u64 * 1000 }))
        .collect();
    let b = stream(&snaps);
    compare(Cursor::new(b), &snaps, options(sparse).max_batch_size(2), map(&[]));
}
/// Readers that deliver the bytes in pieces.
struct Pieces {
    inner: Cursor<Vec<u8>>,
    max: usize,
    /// the call that fails, counting reads, seeks or both
    fail: usize,
    calls: usize,
    fail_seek: bool,
    kind: ErrorKind,
}
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail {
            return Err(Error::from(self.kind));
        }
        let n = b.len().min(self.max);
        self.inner.read(&mut b[..n])
    }
}
impl Seek for Pieces {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.fail_seek {
            return Err(Error::from(self.kind));
        }
        self.inner.seek(p)
    }
}
fn pieces(b: Vec<u8>, max: usize) -> Pieces {
    Pieces { inner: Cursor::new(b), max, fail: 0, calls: 0, fail_seek: false, kind: ErrorKind::Other }
}
#[no_mangle]
pub extern "C" fn h_c19_pieces() {
    let max = [1usize, 2, 3, 5, 16, 64][sym::choose(6, "max")];
    let n = 1 + sym::choose(2, "n");
    let v2 = sym::flag("v2");
    let snaps: Vec<Snapshot> = (0..n).map(|i| template(2 - i, v2, sym::u64(&format!("x{i}")))).collect();
    let b = stream(&snaps);
    compare(pieces(b, max), &snaps, options(sym::flag("sparse")), map(&[]));
}
/// A stream longer than any buffer.
#[no_mangle]
pub extern "C" fn h_c19_long() {
    let x = sym::int(16, "x");
    let pad = [8100usize, 8150, 8191, 8192, 8193, 9000, 20000][sym::choose(7, "pad")];
    let mut a = template(0, true, x);
    if let Snapshot::V2(s) = &mut a {
        s.metadata.insert("p".to_string(), "p".repeat(pad));
    }
    let snaps = vec![a, template(1, sym::flag("v2"), x), template(2, true, x)];
    let b = stream(&snaps);
    compare(Cursor::new(b), &snaps, options(true), map(&[]));
}
/// Streams cut off anywhere.
#[no_mangle]
pub extern "C" fn h_c19_truncated() {
    let v2 = sym::flag("v2");
    let k = sym::choose(3, "which");
    let x = [5u64, 200, 70_000, 1 << 40][sym::choose(4, "x")];
    let snaps = [template(k, v2, x), template((k + 1) % 3, true, x)];
    let first = stream(&snaps[..1]).len();
    let mut b = stream(&snaps);
    let cut = sym::choose(b.len() + 1, "cut");
    b.truncate(cut);
    let whole = if cut == 0 {
        Some(0)
    } else if cut == first {
        Some(1)
    } else {
        None
    };
    let whole = if cut == stream(&snaps).len() { Some(2) } else { whole };
    let (o, m) = (options(false), map(&[]));
    match whole {
        Some(n) => compare(Cursor::new(b), &snaps[..n], o, m),
        None => {
            let r = converter(o, &m).convert_file_handle(Cursor::new(b), std::io::sink());
            sym::check(r.is_err(), "a truncated stream is an error");
            sym::cover("truncated");
        }
    }
}
/// What an independent reading of the stream finds.
fn read_all(b: &[u8]) -> Option<Vec<Snapshot>> {
    let mut out = vec![];
    let mut c = Cursor::new(b);
    while (c.position() as usize) < b.len() {
        out.push(rmp_serde::from_read(&mut c).ok()?);
    }
    Some(out)
}
fn corrupt(k: usize, v2: bool, sparse: bool) {
    let snaps = [template(k, v2, 300), snap(true, time(1, 0), Duration::ZERO, map(&[]), vec![], vec![gauge("g", 5, &[])], vec![])];
    let mut b = stream(&snaps[..1]);
    let n = b.len();
    b.extend(stream(&snaps[1..]));
    let at = sym::choose(n, "at");
    let x = sym::u8("byte");
    // letters and digits end up in hashed names: among ASCII, one other letter stands for all
    if b[at].is_ascii_lowercase() || b[at].is_ascii_digit() {
        sym::assume((x == b'q') | (x >= 0x80));
    }
    // a length: one path per value
    let x = if (x >= 0x80) & (x < 0xc0) { sym::concretize(x as u64) as u8 } else { x };
    b[at] = x;
    let all = read_all(&b);
    let (o, m) = (options(sparse), map(&[]));
    match all {
        Some(s) => {
            compare(Cursor::new(b), &s, o, m);
            sym::cover("still valid");
        }
        None => {
            let r = converter(o, &m).convert_file_handle(Cursor::new(b), std::io::sink());
            sym::check(r.is_err(), "an invalid stream is an error");
            sym::cover("invalid");
        }
    }
}
/// One byte replaced by any other.
#[no_mangle]
pub extern "C" fn h_c19_corrupt_c() {
    corrupt(0, false, false);
}
#[no_mangle]
pub extern "C" fn h_c19_corrupt_g() {
    corrupt(1, true, false);
}
#[no_mangle]
pub extern "C" fn h_c19_corrupt_h() {
    corrupt(2, true, true);
}
#[no_mangle]
pub extern "C" fn h_c19_corrupt_all() {
    let k = sym::choose(3, "which");
    corrupt(k, k == 0 || sym::flag("v2"), k == 2 && sym::flag("sparse"));
}
/// Arbitrary short streams.
#[no_mangle]
pub extern "C" fn h_c19_garbage() {
    let n = 1 + sym::choose(2, "n");
    let b: Vec<u8> = (0..n).map(|i| sym::u8(&format!("b{i}"))).collect();
    let r = MsgpackToParquet::new().convert_file_handle(Cursor::new(b), std::io::sink());
    sym::check(r.is_err(), "two bytes are no snapshot");
    sym::cover("end");
}
/// Reading or seeking fails.
#[no_mangle]
pub extern "C" fn h_c19_read_fault() {
    let x = sym::int(16, "x");
    let snaps = [template(0, true, x), template(1, false, x)];
    let b = stream(&snaps);
    let mut r = pieces(b, [16, 64, 4096][sym::choose(3, "max")]);
    r.fail = sym::choose(20, "call");
    r.fail_seek = r.fail == 0;
    r.kind = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock][sym::choose(3, "kind")];
    let n = MsgpackToParquet::new().convert_file_handle(&mut r, std::io::sink());
    let hit = r.fail_seek || r.calls >= r.fail;
    if hit {
        sym::check(n.is_err(), "a read error is an error");
        sym::cover("failed");
    } else {
        sym::check(matches!(n, Ok(2)), "converting succeeds");
        sym::cover("not reached");
    }
}
/// Writing fails.
struct Out {
    left: usize,
    flush: bool,
    hit: bool,
}
impl Write for &mut Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            self.hit = true;
            return Err(Error::from(ErrorKind::StorageFull));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush {
            self.hit = true;
            return Err(Error::from(ErrorKind::StorageFull));
        }
        Ok(())
    }
}
#[no_mangle]
pub extern "C" fn h_c19_write_fault() {
    let x = sym::int(16, "x");
    let snaps = [template(0, true, x), template(1, false, x)];
    let b = stream(&snaps);
    let mut w = Out { left: sym::choose(16, "left"), flush: sym::flag("flush"), hit: false };
    let n = MsgpackToParquet::with_options(options(false).max_batch_size(1)).convert_file_handle(Cursor::new(b), &mut w);
    if w.hit {
        sym::check(n.is_err(), "a write error is an error");
        sym::cover("failed");
    } else {
        sym::check(matches!(n, Ok(2)), "converting succeeds");
        sym::cover("not reached");
    }
}
