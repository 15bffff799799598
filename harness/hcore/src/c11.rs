//! C11: typed requests return the first value provided for exactly that type.
use crate::sym;
use metriken_core::{request_ref, request_value, Metric, Request, Value};
use std::any::Any;
use std::cell::Cell;

/// One provision: which kind and type, and its content.
#[derive(Clone, Copy)]
struct Prov {
    kind: usize,
    x: u64,
}
// 0 value u64; 1 value i64; 2 ref u64; 3 ref str; 4 value u64 by closure; 5 ref u64 by closure;
// 6 value &'static u64 (a value that is a reference); 7 ref i64
const KINDS: usize = 8;
/// (request kind it can satisfy)
fn serves(kind: usize) -> usize {
    match kind {
        0 | 4 => 0,
        1 => 1,
        2 | 5 => 2,
        3 => 3,
        6 => 4,
        _ => 5,
    }
}

struct P {
    provs: Vec<Prov>,
    cells: Vec<u64>,
    icells: Vec<i64>,
    strs: Vec<String>,
    ran: Cell<u64>,
    satisfied: Cell<u64>,
    asked: usize,
}
unsafe impl Sync for P {}
unsafe impl Send for P {}
static FIXED: [u64; 3] = [101, 102, 103];

impl P {
    fn would(&self, r: &Request<'_>, k: usize) -> bool {
        match serves(k) {
            0 => r.would_be_satisfied_by_value_of::<u64>(),
            1 => r.would_be_satisfied_by_value_of::<i64>(),
            2 => r.would_be_satisfied_by_ref_of::<u64>(),
            3 => r.would_be_satisfied_by_ref_of::<str>(),
            4 => r.would_be_satisfied_by_value_of::<&'static u64>(),
            _ => r.would_be_satisfied_by_ref_of::<i64>(),
        }
    }
}
impl Metric for P {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        let mut open = true;
        for (i, p) in self.provs.iter().enumerate() {
            let now = self.would(r, p.kind);
            let mine = serves(p.kind) == self.asked;
            sym::check(now == (open && mine), "would_be_satisfied answers whether a provision now would be used");
            match p.kind {
                0 => {
                    r.provide_value(p.x);
                }
                1 => {
                    r.provide_value(p.x as i64);
                }
                2 => {
                    r.provide_ref(&self.cells[i]);
                }
                3 => {
                    r.provide_ref::<str>(&self.strs[i]);
                }
                4 => {
                    r.provide_value_with(|| {
                        self.ran.set(self.ran.get() | 1 << i);
                        p.x
                    });
                }
                5 => {
                    r.provide_ref_with(|| {
                        self.ran.set(self.ran.get() | 1 << i);
                        &self.cells[i]
                    });
                }
                6 => {
                    r.provide_value(&FIXED[i]);
                }
                _ => {
                    r.provide_ref(&self.icells[i]);
                }
            }
            if now {
                self.satisfied.set(self.satisfied.get() | 1 << i);
            }
            if mine {
                open = false;
            }
        }
    }
}

fn run(n: usize) {
    let mut provs = vec![];
    for i in 0..n {
        let kind = sym::choose(KINDS, "kind");
        provs.push(Prov { kind, x: sym::u64(["x0", "x1", "x2"][i]) });
    }
    let asked = sym::choose(6, "asked");
    let first = provs.iter().position(|p| serves(p.kind) == asked);
    let p = P {
        cells: provs.iter().map(|p| p.x).collect(),
        icells: provs.iter().map(|p| p.x as i64).collect(),
        strs: provs.iter().enumerate().map(|(i, _)| ["zero", "one", ""][i].to_string()).collect(),
        provs,
        ran: Cell::new(0),
        satisfied: Cell::new(0),
        asked,
    };
    let ok = match asked {
        0 => match (request_value::<u64>(&p), first) {
            (None, None) => true,
            (Some(v), Some(i)) => v == p.provs[i].x,
            _ => false,
        },
        1 => match (request_value::<i64>(&p), first) {
            (None, None) => true,
            (Some(v), Some(i)) => v == p.provs[i].x as i64,
            _ => false,
        },
        2 => match (request_ref::<u64>(&p), first) {
            (None, None) => true,
            (Some(v), Some(i)) => std::ptr::eq(v, &p.cells[i]),
            _ => false,
        },
        3 => match (request_ref::<str>(&p), first) {
            (None, None) => true,
            (Some(v), Some(i)) => std::ptr::eq(v, &*p.strs[i]),
            _ => false,
        },
        4 => match (request_value::<&'static u64>(&p), first) {
            (None, None) => true,
            (Some(v), Some(i)) => std::ptr::eq(v, &FIXED[i]),
            _ => false,
        },
        _ => match (request_ref::<i64>(&p), first) {
            (None, None) => true,
            (Some(v), Some(i)) => std::ptr::eq(v, &p.icells[i]),
            _ => false,
        },
    };
    sym::check(ok, "a request returns the first provision of exactly that type and kind");
    let want = match first {
        Some(i) => 1 << i,
        None => 0,
    };
    sym::check(p.satisfied.get() == want, "exactly the first matching provision is used");
    let closures = match first {
        Some(i) if p.provs[i].kind == 4 || p.provs[i].kind == 5 => 1 << i,
        _ => 0,
    };
    sym::check(p.ran.get() == closures, "a closure runs only when its result is used");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c11_two() {
    run(2)
}
#[no_mangle]
pub extern "C" fn h_c11_three() {
    run(3)
}

/// The same, asked through entries: static (macro wrapper), dynamic (builder).
#[no_mangle]
pub extern "C" fn h_c11_entry() {
    use metriken::{Metadata, MetricBuilder};
    struct Own {
        a: u64,
        b: String,
    }
    impl Metric for Own {
        fn as_any(&self) -> Option<&dyn Any> {
            Some(self)
        }
        fn value(&self) -> Option<Value<'_>> {
            None
        }
        fn provide<'a>(&'a self, r: &mut Request<'a>) {
            r.provide_value(self.a).provide_ref(&self.a).provide_ref::<str>(&self.b).provide_ref(&self.b);
        }
    }
    let (x, y) = (sym::u64("x"), sym::u64("y"));
    let given = sym::flag("given");
    let mut b = MetricBuilder::new("d.x");
    if given {
        b = b.provide(y);
    }
    let m = b.build(Own { a: x, b: "own".into() });
    let ok = crate::stat::with_entry("d.x", |e| {
        // provided by the metric itself only
        sym::check(e.request_value::<u64>() == Some(x), "a value the metric provides");
        sym::check(e.request_value::<i64>().is_none(), "no value of another type");
        sym::check(e.request_value::<String>().is_none(), "a reference does not satisfy a value request");
        match e.request_ref::<str>() {
            Some(s) => sym::check(std::ptr::eq(s, &*m.b), "a reference the metric provides"),
            None => sym::check(false, "a reference the metric provides"),
        }
        match e.request_ref::<String>() {
            Some(s) => sym::check(std::ptr::eq(s, &m.b), "a reference the metric provides"),
            None => sym::check(false, "a reference the metric provides"),
        }
        // provided twice: the builder's comes first
        match e.request_ref::<u64>() {
            Some(v) if given => sym::check(*v == y, "the first provision wins"),
            Some(v) => sym::check(std::ptr::eq(v, &m.a), "the metric's own provision"),
            None => sym::check(false, "a provided reference is found"),
        }
        sym::check(e.request_ref::<Metadata>().is_some(), "metadata is provided");
        sym::check(e.request_value::<Metadata>().is_none(), "metadata is provided by reference only");
    });
    sym::check(ok, "one entry");
    sym::cover("end");
}
