//! C09: every way of walking the registry agrees and visits each metric once.
use crate::statics::NAMES;
use crate::sym;
use metriken::*;
use std::cell::Cell;

fn setup(n: usize) -> Vec<DynBoxedMetric<Counter>> {
    (0..n).map(|i| MetricBuilder::new(["d.a", "d.b", "d.a", "d.d"][i]).build(Counter::new())).collect()
}
fn p(e: &MetricEntry) -> usize {
    e as *const MetricEntry as usize
}

/// Everything the iterators under test can do, behind one interface.
trait Walk {
    fn next(&mut self) -> Option<usize>;
    fn next_back(&mut self) -> Option<usize>;
    fn nth(&mut self, n: usize) -> Option<usize>;
    fn nth_back(&mut self, n: usize) -> Option<usize>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> Option<usize>;
    fn finish(self, how: usize) -> Result<Vec<usize>, usize>;
}
fn end<'a, I: DoubleEndedIterator<Item = &'a MetricEntry>>(mut it: I, how: usize) -> Result<Vec<usize>, usize> {
    match how {
        0 => Err(it.count()),
        1 => Ok(it.fold(vec![], |mut v, e| {
            v.push(p(e));
            v
        })),
        2 => {
            let mut v = it.rfold(vec![], |mut v, e| {
                v.push(p(e));
                v
            });
            v.reverse();
            Ok(v)
        }
        3 => Ok(it.map(p).collect()),
        4 => {
            let mut v: Vec<usize> = it.rev().map(p).collect();
            v.reverse();
            Ok(v)
        }
        _ => {
            // one at a time, then exhausted for good
            let mut v = vec![];
            while let Some(e) = it.next() {
                v.push(p(e));
            }
            for _ in 0..2 {
                sym::check(it.next().is_none() && it.next_back().is_none(), "an exhausted iterator stays exhausted");
                sym::check(it.nth(0).is_none() && it.nth_back(0).is_none(), "an exhausted iterator stays exhausted");
                sym::check(it.nth(3).is_none() && it.nth_back(3).is_none(), "an exhausted iterator stays exhausted");
            }
            Ok(v)
        }
    }
}
macro_rules! walk {
    ($t:ident, $exact:expr) => {
        impl<'a> Walk for $t<'a> {
            fn next(&mut self) -> Option<usize> {
                Iterator::next(self).map(p)
            }
            fn next_back(&mut self) -> Option<usize> {
                DoubleEndedIterator::next_back(self).map(p)
            }
            fn nth(&mut self, n: usize) -> Option<usize> {
                Iterator::nth(self, n).map(p)
            }
            fn nth_back(&mut self, n: usize) -> Option<usize> {
                DoubleEndedIterator::nth_back(self, n).map(p)
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.size_hint()
            }
            fn exact(&self) -> Option<usize> {
                $exact(self)
            }
            fn finish(self, how: usize) -> Result<Vec<usize>, usize> {
                end(self, how)
            }
        }
    };
}
walk!(MetricsIter, |_: &MetricsIter| None);
walk!(DynMetricsIter, |i: &DynMetricsIter| Some(i.len()));

fn mixture<W: Walk>(mut it: W, seq: &[usize], steps: usize) {
    let (lo, hi) = (Cell::new(0usize), Cell::new(seq.len()));
    let bound = |it: &W| {
        let left = hi.get() - lo.get();
        let (a, b) = it.hint();
        sym::check(a <= left, "the lower size hint bounds the remaining items");
        sym::check(b.is_none() || b.unwrap() >= left, "the upper size hint bounds the remaining items");
        if let Some(n) = it.exact() {
            sym::check(n == left && (a, b) == (n, Some(n)), "an exact length is exact");
        }
    };
    bound(&it);
    for _ in 0..steps {
        let left = hi.get() - lo.get();
        let op = sym::choose(4, "op");
        let raw = if op >= 2 { sym::u64("n") } else { 0 };
        let got = match op {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(raw as usize),
            _ => it.nth_back(raw as usize),
        };
        let n = if raw >= left as u64 { left } else { sym::concretize(raw) as usize };
        if n < left {
            let want = if op & 1 == 0 { seq[lo.get() + n] } else { seq[hi.get() - 1 - n] };
            sym::check(got == Some(want), "a step yields what stepping one at a time would");
            if op & 1 == 0 {
                lo.set(lo.get() + n + 1);
            } else {
                hi.set(hi.get() - n - 1);
            }
        } else {
            sym::check(got.is_none(), "a step past the end yields nothing");
            lo.set(hi.get());
        }
        bound(&it);
    }
    let how = sym::choose(6, "end");
    let want = &seq[lo.get()..hi.get()];
    match it.finish(how) {
        Ok(v) => sym::check(v == want, "folding yields the remaining items in order"),
        Err(n) => sym::check(n == want.len(), "count is the number of remaining items"),
    }
    sym::cover("end");
}

fn all(v: &Metrics) -> Vec<usize> {
    let mut it = v.iter();
    let mut s = vec![];
    while let Some(e) = Iterator::next(&mut it) {
        s.push(p(e));
    }
    s
}

/// The sequence itself: every static and every dynamic metric exactly once.
#[no_mangle]
pub extern "C" fn h_c09_complete() {
    let n = sym::choose(5, "dynamic");
    let d = setup(n);
    let v = metrics();
    let seq = all(&v);
    sym::check(seq.len() == NAMES.len() + n, "as many items as there are metrics");
    for i in 0..seq.len() {
        for j in 0..i {
            sym::check(seq[i] != seq[j], "no entry twice");
        }
    }
    let mut names: Vec<&str> = v.iter().map(|e| e.name()).collect();
    names.sort();
    let mut want = NAMES.to_vec();
    want.extend(["d.a", "d.b", "d.a", "d.d"].iter().take(n));
    want.sort();
    sym::check(names == want, "every metric is visited exactly once");
    let st: Vec<usize> = v.static_metrics().iter().map(p).collect();
    let dy: Vec<usize> = v.dynamic_metrics().map(p).collect();
    sym::check(st.len() == NAMES.len() && dy.len() == n, "the parts are complete");
    for x in st.iter().chain(dy.iter()) {
        sym::check(seq.contains(x), "the whole holds both parts");
    }
    let other: Vec<usize> = (&v).into_iter().map(p).collect();
    sym::check(other == seq, "into_iter is iter");
    let again = all(&v);
    sym::check(again == seq, "a second walk is the same walk");
    for (i, m) in d.iter().enumerate() {
        m.set(i as u64 + 10);
    }
    let mut sum = 0;
    for e in v.iter() {
        if let Some(Value::Counter(c)) = e.value() {
            sum += c;
        }
    }
    sym::check(sum == (0..n as u64).map(|i| i + 10).sum(), "every dynamic metric is visited exactly once");
    drop(v);
    sym::cover("end");
}
fn whole(steps: usize, dmax: usize) {
    let n = sym::choose(dmax + 1, "dynamic");
    let d = setup(n);
    let v = metrics();
    let seq = all(&v);
    mixture(v.iter(), &seq, steps);
    drop(v);
    drop(d);
}
fn dynamic(steps: usize, dmax: usize) {
    let n = sym::choose(dmax + 1, "dynamic");
    let d = setup(n);
    let v = metrics();
    let mut it = v.dynamic_metrics();
    let mut seq = vec![];
    while let Some(e) = Iterator::next(&mut it) {
        seq.push(p(e));
    }
    sym::check(seq.len() == n, "every dynamic metric is visited");
    mixture(v.dynamic_metrics(), &seq, steps);
    drop(v);
    drop(d);
}
#[no_mangle]
pub extern "C" fn h_c09_mix() {
    whole(2, 3)
}
#[no_mangle]
pub extern "C" fn h_c09_mix3() {
    whole(3, 2)
}
#[no_mangle]
pub extern "C" fn h_c09_mix4() {
    whole(4, 3)
}
#[no_mangle]
pub extern "C" fn h_c09_dyn() {
    dynamic(2, 3)
}
#[no_mangle]
pub extern "C" fn h_c09_dyn3() {
    dynamic(3, 4)
}

/// Many dynamic metrics: the registry's map has several levels.
#[no_mangle]
pub extern "C" fn h_c09_many() {
    let n = [7, 11, 12, 30, 80][sym::choose(5, "dynamic")];
    let mut d: Vec<DynBoxedMetric<Counter>> = (0..n).map(|i| MetricBuilder::new(format!("d{i}")).build(Counter::with_value(i as u64 + 1))).collect();
    if sym::flag("holes") {
        // drop some of them, from the middle
        for i in (0..n / 2).rev() {
            d.remove(i * 2);
        }
    }
    let v = metrics();
    let seq = all(&v);
    sym::check(seq.len() == NAMES.len() + d.len(), "as many items as there are metrics");
    let mut sum = 0u64;
    for e in v.iter() {
        if let Some(Value::Counter(c)) = e.value() {
            sum += c;
        }
    }
    sym::check(sum == d.iter().map(|m| Counter::value(m)).sum(), "every metric is visited exactly once");
    sym::check(v.dynamic_metrics().len() == d.len(), "an exact length is exact");
    if sym::flag("whole") {
        mixture(v.iter(), &seq, 1);
    } else {
        let dy: Vec<usize> = seq.iter().copied().filter(|x| !v.static_metrics().iter().any(|e| p(e) == *x)).collect();
        mixture(v.dynamic_metrics(), &dy, 1);
    }
    drop(v);
}
