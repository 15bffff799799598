//! Building snapshots.
#![allow(dead_code)]
use metriken_exposition::*;
use std::collections::HashMap;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const CN: [&str; 3] = ["ca", "cb", "cc"];
pub const GN: [&str; 3] = ["ga", "gb", "gc"];
pub const HN: [&str; 3] = ["ha", "hb", "hc"];

pub fn map(p: &[(&str, &str)]) -> HashMap<String, String> {
    p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
pub fn counter(name: &str, value: u64, m: &[(&str, &str)]) -> Counter {
    Counter { name: name.to_string(), value, metadata: map(m) }
}
pub fn gauge(name: &str, value: i64, m: &[(&str, &str)]) -> Gauge {
    Gauge { name: name.to_string(), value, metadata: map(m) }
}
pub fn histo(name: &str, g: u8, p: u8, b: &[u64], m: &[(&str, &str)]) -> Histogram {
    Histogram { name: name.to_string(), value: histogram::Histogram::from_buckets(g, p, b.to_vec()).unwrap(), metadata: map(m) }
}
/// SystemTime::new(secs, nanos) without the branches of `+`.
pub fn time(secs: u64, nanos: u32) -> SystemTime {
    UNIX_EPOCH + Duration::new(secs, nanos)
}
pub fn same_time(a: SystemTime, b: SystemTime) -> bool {
    a == b
}
pub fn snap(v2: bool, systemtime: SystemTime, duration: Duration, metadata: HashMap<String, String>, counters: Vec<Counter>, gauges: Vec<Gauge>, histograms: Vec<Histogram>) -> Snapshot {
    if v2 {
        Snapshot::V2(SnapshotV2 { systemtime, duration, metadata, counters, gauges, histograms })
    } else {
        Snapshot::V1(SnapshotV1 { systemtime, metadata, counters, gauges, histograms })
    }
}
