//! C24: a dynamic metric and everything given with it is destroyed exactly once, by its owner's drop.
use crate::stat::custom_fmt;
use crate::sym;
use metriken::*;
use std::any::Any;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

const N: usize = 24;
static DROPS: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
static NEXT: AtomicUsize = AtomicUsize::new(0);

/// Counts how often it is destroyed; owns heap memory of its own.
pub struct Token(usize, Box<u64>);
impl Token {
    fn new() -> Token {
        let i = NEXT.fetch_add(1, SeqCst);
        Token(i, Box::new(i as u64))
    }
    fn intact(&self) -> bool {
        *self.1 == self.0 as u64
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        DROPS[self.0].fetch_add(1, SeqCst);
    }
}
fn drops(i: usize) -> u64 {
    DROPS[i].load(SeqCst)
}
/// Every token made so far was destroyed once.
fn all_once() -> bool {
    let n = NEXT.load(SeqCst);
    sym::check(n <= N, "harness: enough slots");
    (0..n).all(|i| drops(i) == 1)
}
fn restart() {
    for d in &DROPS {
        d.store(0, SeqCst);
    }
    NEXT.store(0, SeqCst);
}

struct M(Token);
impl Metric for M {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(*self.0 .1))
    }
}
struct P1(Token);
struct P2(Token);

/// Indices of the tokens that the entry has to show.
#[derive(Default)]
struct Given {
    p1: Option<usize>,
    p2: Option<usize>,
}
fn builder(calls: &[usize]) -> (MetricBuilder, Given) {
    let mut b = MetricBuilder::new(String::from("a metric"));
    let mut g = Given::default();
    for c in calls {
        match c {
            0 => {
                let t = Token::new();
                g.p1 = Some(t.0);
                b = b.provide(P1(t));
            }
            1 => {
                let t = Token::new();
                g.p2 = Some(t.0);
                b = b.provide(P2(t));
            }
            2 => b = b.metadata("key", String::from("value")),
            3 => b = b.description(String::from("a description")),
            _ => b = b.formatter(custom_fmt),
        }
    }
    (b, g)
}
/// While the owner lives, nothing it was given is gone.
fn lives(g: &Given, m: &M) {
    sym::check(drops(m.0 .0) == 0 && m.0.intact(), "the metric lives as long as its owner");
    for i in [g.p1, g.p2].into_iter().flatten() {
        sym::check(drops(i) == 0, "what was provided lives as long as the owner");
    }
    let v = metrics();
    for e in v.dynamic_metrics() {
        let shown = match e.value() {
            Some(Value::Counter(i)) => i as usize,
            _ => usize::MAX,
        };
        sym::check(shown == m.0 .0, "the metric listed is the living one");
        sym::check(e.request_ref::<P1>().map(|p| p.0 .0) == g.p1, "what was provided is found");
        sym::check(e.request_ref::<P2>().map(|p| p.0 .0) == g.p2, "what was provided is found");
    }
}
fn cycle(calls: &[usize], how: usize) {
    let (b, g) = builder(calls);
    match how {
        0 => {
            let x = b.build(M(Token::new()));
            lives(&g, &x);
            let x = Box::new(x); // moving the handle destroys nothing
            lives(&g, &x);
            drop(x);
        }
        1 => {
            let (x, e) = b.build_pinned(M(Token::new()));
            let x = Box::pin(x);
            x.as_ref().register(e);
            lives(&g, &x);
            drop(x);
        }
        2 => {
            let (x, e) = b.build_pinned(M(Token::new()));
            drop(e);
            lives(&g, &x);
            drop(x);
        }
        3 => {
            let (x, e) = b.build_pinned(M(Token::new()));
            drop(x);
            sym::check(all_once(), "everything is destroyed once by the owner's drop");
            drop(e);
        }
        4 => drop(b.into_entry()),
        5 => {
            // listed anew under another name
            let (x, e) = b.build_pinned(M(Token::new()));
            let x = Box::pin(x);
            x.as_ref().register(e);
            x.as_ref().register(MetricBuilder::new(String::from("other")).description(String::from("text")).provide(P1(Token::new())).into_entry());
            lives(&g, &x);
            drop(x);
        }
        _ => drop(b),
    }
    sym::check(all_once(), "everything is destroyed once by the owner's drop");
}
/// Does repeating `f` leave more and more allocations behind?
fn no_growth(mut f: impl FnMut()) {
    let mut live = [0; 4];
    for l in &mut live {
        restart();
        f();
        *l = sym::live_heap();
    }
    sym::check(live[3] <= live[1] && live[2] <= live[1], "creating and dropping leaves no memory behind");
}
fn run(n: usize) {
    let calls: Vec<usize> = (0..n).map(|_| sym::choose(5, "call")).collect();
    let how = sym::choose(7, "how");
    no_growth(|| cycle(&calls, how));
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c24_life() {
    run(2)
}
#[no_mangle]
pub extern "C" fn h_c24_life3() {
    run(3)
}
#[no_mangle]
pub extern "C" fn h_c24_life4() {
    run(4)
}

/// Several metrics, dropped in any order: each goes with its own owner.
#[no_mangle]
pub extern "C" fn h_c24_order() {
    let order = [sym::choose(3, "first"), sym::choose(2, "second"), 0];
    let again = sym::flag("again");
    no_growth(|| {
        let mut v: Vec<_> = (0..3)
            .map(|i| {
                let (b, _) = builder(&[0, 3, 2][..i + 1]);
                let t = Token::new();
                (t.0, b.build(M(t)))
            })
            .collect();
        for (k, o) in order.into_iter().enumerate() {
            let (i, x) = v.remove(o);
            sym::check(drops(i) == 0, "the metric lives as long as its owner");
            drop(x);
            sym::check(drops(i) == 1, "the owner's drop destroys the metric");
            for (i, _) in &v {
                sym::check(drops(*i) == 0, "dropping one metric destroys no other");
            }
            if k == 0 && again {
                let t = Token::new();
                let i = t.0;
                drop(MetricBuilder::new("another").build(M(t)));
                sym::check(drops(i) == 1, "the owner's drop destroys the metric");
            }
        }
        sym::check(all_once(), "everything is destroyed once");
    });
    sym::cover("end");
}
/// An owner that goes while unwinding.
#[no_mangle]
pub extern "C" fn h_c24_unwind() {
    let how = sym::choose(3, "how");
    no_growth(|| {
        let p = sym::panics(|| {
            let (b, _) = builder(&[0, 1]);
            if how == 0 {
                let _x = b.build(M(Token::new()));
                panic!("owner's thread fails")
            } else if how == 1 {
                let (x, e) = b.build_pinned(M(Token::new()));
                let x = std::pin::pin!(x);
                x.as_ref().register(e);
                panic!("owner's thread fails")
            } else {
                let _b = b.metadata("k", "v");
                panic!("before anything was built")
            }
        });
        sym::check(p, "harness: it panicked");
        sym::check(all_once(), "everything is destroyed once");
        sym::check(metrics().dynamic_metrics().count() == 0, "nothing stays listed");
    });
    sym::cover("end");
}
/// The metrics of the crate give their memory back.
#[no_mangle]
pub extern "C" fn h_c24_kinds() {
    let kind = sym::choose(6, "kind");
    let used = sym::flag("used");
    no_growth(|| {
        let b = MetricBuilder::new("m");
        match kind {
            0 => {
                let x = b.build(Counter::new());
                if used {
                    x.increment();
                }
            }
            1 => {
                let x = b.build(AtomicHistogram::new(0, 3));
                if used {
                    sym::check(x.increment(1).is_ok() && x.load().is_some(), "harness: incremented");
                }
            }
            2 => {
                let x = b.build(RwLockHistogram::new(0, 3));
                if used {
                    sym::check(x.update_from(&[1, 2, 3, 4]).is_ok(), "harness: updated");
                    sym::check(x.update_from(&[4, 2, 3, 4]).is_ok() && x.update_from(&[1]).is_err() && x.load().is_some(), "harness: updated");
                }
            }
            3 => {
                let x = b.build(Lazy::<M>::new(|| M(Token::new())));
                if used {
                    sym::check(x.0.intact(), "harness: touched");
                }
                sym::check(NEXT.load(SeqCst) == used as usize && drops(0) == 0, "a lazy metric lives as long as its owner");
            }
            4 => {
                // the initialiser owns something
                let t = Token::new();
                let x = b.build(Lazy::new(move || M(Token(t.0 + 1, Box::new(t.0 as u64 + 1)))));
                if used {
                    sym::check(x.0.intact(), "harness: touched");
                    NEXT.fetch_add(1, SeqCst);
                    sym::check(drops(1) == 0, "a lazy metric lives as long as its owner");
                } else {
                    sym::check(drops(0) == 0, "an initialiser that may still be needed is kept");
                }
            }
            _ => {
                // looked at while registered
                let x = b.metadata("a", "b").build(Gauge::new());
                if used {
                    let v = metrics();
                    for e in v.iter() {
                        sym::observe(e.formatted(Format::Prometheus).len() as u64);
                    }
                }
                x.increment();
            }
        }
        sym::check(all_once(), "everything is destroyed once");
    });
    sym::cover("end");
}
/// A fresh lazy outside the registry, too: destroyed once, initialiser included.
#[no_mangle]
pub extern "C" fn h_c24_lazy() {
    let (x, y) = (Token::new(), Token::new());
    let (i, j) = (x.0, y.0);
    let how = sym::choose(5, "how");
    let l = Lazy::new(move || {
        sym::check(x.intact(), "the initialiser's data");
        if how == 4 {
            panic!("no metric after all")
        }
        M(y)
    });
    match how {
        0 => {
            drop(l);
        }
        1 => {
            sym::check(l.0.intact() && drops(j) == 0, "the metric lives");
            drop(l);
        }
        2 => {
            let mut l = l;
            sym::check(Lazy::get_mut(&mut l).is_none(), "nothing yet");
            l.0 = Token::new();
            sym::check(drops(j) == 1 && drops(j + 1) == 0, "what was replaced is gone");
            drop(l);
        }
        4 => {
            sym::check(sym::panics(|| l.0.intact()), "harness: it panicked");
            sym::check(Lazy::get(&l).is_none(), "nothing was made");
            drop(l);
        }
        _ => {
            sym::par2(|| sym::check(l.0.intact(), "the metric lives"), || sym::check(l.0.intact(), "the metric lives"));
            sym::check(drops(j) == 0, "the metric lives");
            drop(l);
        }
    }
    sym::check(drops(i) == 1 && all_once(), "everything is destroyed once");
    sym::cover("end");
}
/// Owners in two threads, and a reader.
#[no_mangle]
pub extern "C" fn h_c24_race() {
    let how = sym::choose(2, "how");
    let own = || {
        let (b, _) = builder(&[0]);
        let t = Token::new();
        let i = t.0;
        let x = b.build(M(t));
        sym::check(drops(i) == 0, "the metric lives as long as its owner");
        drop(x);
        sym::check(drops(i) == 1, "the owner's drop destroys the metric");
    };
    if how == 0 {
        sym::par2(own, own);
    } else {
        sym::par2(own, || {
            let v = metrics();
            for e in v.dynamic_metrics() {
                let i = match e.value() {
                    Some(Value::Counter(i)) => i as usize,
                    _ => 0,
                };
                sym::check(drops(i) == 0, "a metric that is looked at has not been destroyed");
                if let Some(p) = e.request_ref::<P1>() {
                    sym::check(drops(p.0 .0) == 0, "what is looked at has not been destroyed");
                }
            }
        });
    }
    sym::check(all_once(), "everything is destroyed once");
    sym::cover("end");
}
