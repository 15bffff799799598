//! C10: metadata is a faithful read-only map.
use crate::stat::*;
use crate::sym;
use crate::util::*;
use metriken::*;
use std::collections::HashMap;

const KEYS: [&str; 4] = ["", "op", "unit", "a much longer key, with spaces"];

/// What the map is supposed to hold.
type Model = Vec<(String, String)>;

fn agrees(md: &Metadata, m: &Model, absent: &[&str]) {
    sym::check(md.len() == m.len(), "len is the number of pairs");
    sym::check(md.is_empty() == m.is_empty(), "is_empty agrees with len");
    for (k, v) in m {
        sym::check(opt_eq(md.get(k), Some(v)), "get returns the value supplied for the key");
        sym::check(md.contains_key(k), "contains_key for a present key");
    }
    for k in absent {
        sym::check(md.get(k).is_none(), "get of another key is nothing");
        sym::check(!md.contains_key(k), "contains_key for an absent key");
    }
    // one item at a time: every pair exactly once
    let mut seq: Vec<(&str, &str)> = vec![];
    let mut it = md.iter();
    for left in (0..m.len()).rev() {
        sym::check(it.len() == left + 1, "exact length before a step");
        match it.next() {
            Some(x) => seq.push(x),
            None => sym::check(false, "an iterator yields every pair"),
        }
        sym::check(it.len() == left && it.size_hint() == (left, Some(left)), "exact length after a step");
    }
    sym::check(it.next().is_none() && it.next().is_none(), "an exhausted iterator stays exhausted");
    for (k, v) in m {
        let mut n = 0;
        for (a, b) in &seq {
            if *a == k {
                n += 1;
                sym::check(str_eq(b, v), "the iterator yields the value supplied");
            }
        }
        sym::check(n == 1, "the iterator yields every pair exactly once");
    }
}

fn mixture(md: &Metadata, steps: usize) {
    let seq: Vec<(&str, &str)> = {
        let mut it = md.iter();
        let mut v = vec![];
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    };
    let same = |a: Option<(&str, &str)>, b: Option<&(&str, &str)>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.0.as_ptr() == b.0.as_ptr() && a.1.as_ptr() == b.1.as_ptr() && a.0 == b.0,
        _ => false,
    };
    let mut it = if sym::flag("into") { md.into_iter() } else { md.iter() };
    let mut at = 0usize;
    for _ in 0..steps {
        match sym::choose(3, "op") {
            0 => {
                sym::check(same(it.next(), seq.get(at)), "next steps by one");
                at = (at + 1).min(seq.len());
            }
            1 => {
                let n = sym::u64("n");
                let got = it.nth(n as usize);
                let n = if n >= seq.len() as u64 { seq.len() } else { sym::concretize(n) as usize };
                sym::check(same(got, seq.get(at + n)), "nth skips exactly that many");
                at = (at + n + 1).min(seq.len());
            }
            _ => {
                let c = it.clone();
                let rest: Vec<(&str, &str)> = c.collect();
                sym::check(rest.len() == seq.len() - at, "a clone has the remaining pairs");
                for (i, x) in rest.iter().enumerate() {
                    sym::check(same(Some(*x), seq.get(at + i)), "a clone has the remaining pairs");
                }
            }
        }
        let left = seq.len() - at;
        sym::check(it.len() == left && it.size_hint() == (left, Some(left)), "the length is exact");
    }
    let left = seq.len() - at;
    match sym::choose(4, "end") {
        0 => sym::check(it.count() == left, "count is the number of remaining pairs"),
        1 => {
            let mut i = at;
            let n = it.fold(0, |n, x| {
                sym::check(same(Some(x), seq.get(i)), "fold visits the remaining pairs in order");
                i += 1;
                n + 1
            });
            sym::check(n == left, "fold visits every remaining pair");
        }
        2 => {
            let l = it.last();
            sym::check(same(l, if left == 0 { None } else { seq.last() }), "last is the last pair");
        }
        _ => {
            let mut i = at;
            it.for_each(|x| {
                sym::check(same(Some(x), seq.get(i)), "for_each visits the remaining pairs in order");
                i += 1;
            });
            sym::check(i == seq.len(), "for_each visits every remaining pair");
        }
    }
}

fn dynamic(n: usize) -> (Metadata, Model, Vec<&'static str>) {
    let mut m: Model = vec![];
    let mut h = HashMap::new();
    let mut absent = vec!["nokey", "o", "opp"];
    for (i, k) in KEYS.iter().enumerate().take(n) {
        if sym::flag("has") {
            let v = string([0, 2, 1, 3][i], &format!("v{i}."));
            m.push((k.to_string(), v.clone()));
            h.insert(k.to_string(), v);
        } else {
            absent.push(*k);
        }
    }
    let md = match sym::choose(2, "how") {
        0 => Metadata::new(h),
        _ => Metadata::from(h),
    };
    (md, m, absent)
}

#[no_mangle]
pub extern "C" fn h_c10_dynamic() {
    let (md, m, absent) = dynamic(4);
    agrees(&md, &m, &absent);
    let c = md.clone();
    drop(md);
    agrees(&c, &m, &absent);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c10_dynamic_walk() {
    let (md, _, _) = dynamic(3);
    mixture(&md, 2);
    sym::cover("end");
}
fn statics(i: usize) -> (&'static Metadata, Model, Vec<&'static str>) {
    static EMPTY: std::sync::OnceLock<Metadata> = std::sync::OnceLock::new();
    let own = |l: &[(&str, &str)]| l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let find = |name: &str| {
        let m = metrics();
        m.static_metrics().iter().find(|e| e.name() == name).unwrap().metadata()
    };
    match i {
        0 => (find("s.counter"), own(&[("op", "read"), ("unit", "ops")]), vec!["", "a", "read", "opp", "name"]),
        1 => (find("s.gauge"), vec![], vec!["", "a", "op", "unit"]),
        2 => (
            find("s.lazy.counter"),
            own(&[("", ""), ("a", ""), ("b", "1"), ("c", "22"), ("a b", "x\"y")]),
            vec!["d", "ab", "B", "1", "aa"],
        ),
        3 => (find("s.custom"), own(&[("k", "v")]), vec!["", "v", "K"]),
        _ => (EMPTY.get_or_init(Metadata::default), vec![], vec!["", "a", "op"]),
    }
}
#[no_mangle]
pub extern "C" fn h_c10_static() {
    let (md, m, absent) = statics(sym::choose(5, "which"));
    agrees(md, &m, &absent);
    let c = md.clone();
    agrees(&c, &m, &absent);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c10_static_walk() {
    let (md, _, _) = statics(sym::choose(5, "which"));
    mixture(md, 2);
    sym::cover("end");
}
/// Looking up a key of arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_c10_anykey() {
    let which = sym::choose(2, "which");
    let k = string(1, "k");
    let b = k.as_bytes()[0];
    let (got, has, want): (Option<&str>, bool, Option<&str>) = if which == 0 {
        let mut h = HashMap::new();
        h.insert("a".to_string(), "1".to_string());
        h.insert("b".to_string(), "2".to_string());
        let md: &'static Metadata = Box::leak(Box::new(Metadata::new(h)));
        (md.get(&k), md.contains_key(&k), if b == b'a' { Some("1") } else if b == b'b' { Some("2") } else { None })
    } else {
        let (md, _, _) = statics(3);
        (md.get(&k), md.contains_key(&k), if b == b'k' { Some("v") } else { None })
    };
    sym::check(opt_eq(got, want), "get returns the value supplied for exactly that key");
    sym::check(has == want.is_some(), "contains_key agrees with get");
    sym::cover("end");
}
