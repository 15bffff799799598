//! C01: counters lose no update and wrap modulo 2^64.
use crate::sym;
use metriken::Counter;

#[derive(Clone, Copy)]
struct Op {
    kind: usize, // 0 add, 1 increment, 2 set, 3 reset, 4 value
    arg: u64,
}
fn pick(tag: &str, kinds: usize) -> Op {
    let kind = sym::choose(kinds, &format!("{tag}.op"));
    let arg = sym::u64(&format!("{tag}.arg"));
    Op { kind, arg }
}
fn run(c: &Counter, o: Op) -> u64 {
    match o.kind {
        0 => c.add(o.arg),
        1 => c.increment(),
        2 => c.set(o.arg),
        3 => c.reset(),
        _ => c.value(),
    }
}
/// (value returned, next value) of the sequential specification
fn spec(v: u64, o: Op) -> (u64, u64) {
    match o.kind {
        0 => (v, v.wrapping_add(o.arg)),
        1 => (v, v.wrapping_add(1)),
        2 => (v, o.arg),
        3 => (v, 0),
        _ => (v, v),
    }
}

#[no_mangle]
pub extern "C" fn h_c01_seq() {
    let c = Counter::new();
    sym::check(c.value() == 0, "a new counter is 0");
    sym::check(Counter::default().value() == 0, "a default counter is 0");
    let init = sym::u64("init");
    let c = Counter::with_value(init);
    sym::check(c.value() == init, "a counter starts at its initial value");
    let mut v = init;
    for i in 0..3 {
        let o = pick(["a", "b", "c"][i], 5);
        let got = run(&c, o);
        let (ret, next) = spec(v, o);
        sym::check(got == ret, "every operation returns the previous value");
        sym::check(c.value() == next, "the new value is the specified one");
        sym::observe(got);
        v = next;
    }
    sym::cover("end");
}

#[no_mangle]
pub extern "C" fn h_c01_ops() {
    use metriken::{Metric, Value};
    static C: Counter = Counter::new();
    let a = sym::u64("a");
    C.set(a);
    let m: &dyn Metric = &C;
    sym::check(m.is_enabled(), "a counter is enabled");
    match m.value() {
        Some(Value::Counter(v)) => {
            sym::check(v == a, "the metric value is the counter's value");
            sym::cover("counter value")
        }
        _ => sym::check(false, "a counter reports a counter value"),
    }
    match m.as_any().and_then(|x| x.downcast_ref::<Counter>()) {
        Some(c) => {
            let b = sym::u64("b");
            sym::check(c.add(b) == a, "the downcast counter is the counter");
            sym::check(C.value() == a.wrapping_add(b), "updates through Any are visible");
        }
        None => sym::check(false, "a counter downcasts to Counter"),
    }
}

/// Is there an interleaving of the per-thread operation lists that explains all results?
pub fn explain(v: u64, ops: &[&[(Op_, u64)]], at: &mut [usize], fin: u64) -> bool {
    let mut any = false;
    let mut more = false;
    for t in 0..ops.len() {
        if at[t] < ops[t].len() {
            more = true;
            let (o, got) = ops[t][at[t]];
            let (ret, next) = spec(v, o);
            at[t] += 1;
            let rest = explain(next, ops, at, fin);
            at[t] -= 1;
            any |= (got == ret) & rest;
        }
    }
    if more {
        any
    } else {
        v == fin
    }
}
type Op_ = Op;

fn par(n: usize, per: usize) {
    let mut plan: Vec<Vec<Op>> = vec![];
    for t in 0..n {
        let mut l = vec![];
        for k in 0..per {
            l.push(pick(["t0", "t1", "t2"][t], if k == 0 { 4 } else { 5 }));
        }
        plan.push(l);
    }
    check_plan(plan)
}
fn check_plan(plan: Vec<Vec<Op>>) {
    let n = plan.len();
    let init = sym::u64("init");
    let c = Counter::with_value(init);
    let mut res: Vec<Vec<(Op, u64)>> = plan.iter().map(|l| Vec::with_capacity(l.len())).collect();
    {
        let cr = &c;
        let mut tids = vec![];
        for (ops, out) in plan.iter().zip(res.iter_mut()) {
            tids.push(unsafe {
                sym::spawn_borrow(move || {
                    for o in ops {
                        let r = run(cr, *o);
                        out.push((*o, r));
                    }
                })
            });
        }
        for t in tids {
            sym::join(t);
        }
    }
    let fin = c.value();
    let refs: Vec<&[(Op, u64)]> = res.iter().map(|v| &v[..]).collect();
    let mut at = vec![0; n];
    let ok = explain(init, &refs, &mut at, fin);
    sym::check(ok, "the results of concurrent operations are those of some one-at-a-time order");
    for r in &res {
        for (_, g) in r {
            sym::observe(*g);
        }
    }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c01_par2() {
    par(2, 2)
}
#[no_mangle]
pub extern "C" fn h_c01_par3() {
    par(3, 1)
}

#[no_mangle]
pub extern "C" fn h_c01_entry() {
    // a counter reached through two owners at once (static deref and lazy)
    use metriken::{Lazy, LazyCounter};
    static L: LazyCounter = LazyCounter::new(Counter::new);
    let _: &Lazy<Counter> = &L;
    let (a, b) = (sym::u64("a"), sym::u64("b"));
    sym::par2(
        || {
            L.add(a);
        },
        || {
            L.add(b);
        },
    );
    sym::check(L.value() == a.wrapping_add(b), "both additions through a lazy counter count");
    sym::cover("end");
}

/// One operation against a whole run of updates by another thread.
#[no_mangle]
pub extern "C" fn h_c01_contended() {
    let one = pick("t0", 4);
    let kind = [0, 2][sym::choose(2, "t1.op")];
    let run = (0..5).map(|k| Op { kind, arg: sym::u64(&format!("t1.arg{k}")) }).collect();
    check_plan(vec![vec![one], run])
}
