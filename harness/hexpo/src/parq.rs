//! Reading back what the writer was given.
#![allow(dead_code)]
use crate::util::*;
use arrow::array::*;
use arrow::datatypes::DataType;
use metriken_exposition::*;
use parquet::arrow::arrow_writer::{take_records, Record};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Cell {
    Null,
    U(u64),
    I(i64),
    List(Vec<u64>),
    Bad,
}
/// Same kind and content, as one formula where possible.
pub fn cell_eq(a: &Cell, b: &Cell) -> bool {
    match (a, b) {
        (Cell::Null, Cell::Null) => true,
        (Cell::U(x), Cell::U(y)) => x == y,
        (Cell::I(x), Cell::I(y)) => x == y,
        (Cell::List(x), Cell::List(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut d = 0;
            for i in 0..x.len() {
                d |= x[i] ^ y[i];
            }
            d == 0
        }
        _ => false,
    }
}
pub struct Table(pub Record);

fn read(c: &dyn Array, i: usize) -> Cell {
    if c.is_null(i) {
        return Cell::Null;
    }
    if let Some(a) = c.as_any().downcast_ref::<UInt64Array>() {
        return Cell::U(a.value(i));
    }
    if let Some(a) = c.as_any().downcast_ref::<Int64Array>() {
        return Cell::I(a.value(i));
    }
    if let Some(a) = c.as_any().downcast_ref::<ListArray>() {
        let v = a.value(i);
        if let Some(v) = v.as_any().downcast_ref::<UInt64Array>() {
            let mut out = Vec::with_capacity(v.len());
            for k in 0..v.len() {
                if v.is_null(k) {
                    return Cell::Bad;
                }
                out.push(v.value(k));
            }
            return Cell::List(out);
        }
    }
    Cell::Bad
}

impl Table {
    /// The one file written so far.
    pub fn take() -> Option<Table> {
        let mut r = take_records();
        if r.len() != 1 {
            return None;
        }
        r.pop().map(Table)
    }
    pub fn rows(&self) -> usize {
        self.0.batches.iter().map(|b| b.num_rows()).sum()
    }
    pub fn columns(&self) -> usize {
        self.0.schema.fields().len()
    }
    /// The column of this name and data type, if there is exactly one.
    pub fn col(&self, name: &str, list: bool, signed: bool) -> Option<usize> {
        let mut found = None;
        for (i, f) in self.0.schema.fields().iter().enumerate() {
            if f.name().len() == name.len() && str_eq(f.name(), name) && type_ok(f.data_type(), list, signed) {
                if found.is_some() {
                    return None;
                }
                found = Some(i);
            }
        }
        found
    }
    pub fn field_metadata(&self, c: usize) -> &HashMap<String, String> {
        self.0.schema.field(c).metadata()
    }
    pub fn cell(&self, row: usize, col: usize) -> Cell {
        let mut r = row;
        for b in &self.0.batches {
            if r < b.num_rows() {
                return if col < b.num_columns() { read(b.column(col).as_ref(), r) } else { Cell::Bad };
            }
            r -= b.num_rows();
        }
        Cell::Bad
    }
}
pub fn type_ok(t: &DataType, list: bool, signed: bool) -> bool {
    match t {
        DataType::UInt64 => !list && !signed,
        DataType::Int64 => !list && signed,
        DataType::List(f) => list && *f.data_type() == DataType::UInt64,
        _ => false,
    }
}
/// Export the snapshots the way a user of the library does: two passes.
pub fn export(snaps: &[Snapshot], o: ParquetOptions, m: Option<HashMap<String, String>>) -> Result<i64, parquet::errors::ParquetError> {
    let mut schema = ParquetSchema::new();
    for s in snaps {
        schema.push(s.clone());
    }
    let mut w = schema.finalize(std::io::sink(), o, m)?;
    for s in snaps {
        w.push(s.clone())?;
    }
    Ok(w.finalize()?.num_rows)
}
pub fn options(sparse: bool) -> ParquetOptions {
    ParquetOptions::new().histogram_type(if sparse { ParquetHistogramType::Sparse } else { ParquetHistogramType::Standard })
}
/// The sparse form of dense buckets.
pub fn sparse(b: &[u64]) -> (Vec<u64>, Vec<u64>) {
    let mut i = vec![];
    let mut c = vec![];
    for (k, n) in b.iter().enumerate() {
        if *n != 0 {
            i.push(k as u64);
            c.push(*n);
        }
    }
    (i, c)
}
