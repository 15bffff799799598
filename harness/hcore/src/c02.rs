//! C02: gauges lose no update and wrap in two's complement.
use crate::sym;
use metriken::Gauge;

#[derive(Clone, Copy)]
struct Op {
    kind: usize,
    arg: i64,
}
// 0 add 1 sub 2 increment 3 decrement 4 set 5 reset 6 value
fn pick(tag: &str, kinds: usize) -> Op {
    let kind = sym::choose(kinds, &format!("{tag}.op"));
    let arg = sym::i64(&format!("{tag}.arg"));
    Op { kind, arg }
}
fn run(g: &Gauge, o: Op) -> i64 {
    match o.kind {
        0 => g.add(o.arg),
        1 => g.sub(o.arg),
        2 => g.increment(),
        3 => g.decrement(),
        4 => g.set(o.arg),
        5 => g.reset(),
        _ => g.value(),
    }
}
fn spec(v: i64, o: Op) -> (i64, i64) {
    match o.kind {
        0 => (v, v.wrapping_add(o.arg)),
        1 => (v, v.wrapping_sub(o.arg)),
        2 => (v, v.wrapping_add(1)),
        3 => (v, v.wrapping_sub(1)),
        4 => (v, o.arg),
        5 => (v, 0),
        _ => (v, v),
    }
}

#[no_mangle]
pub extern "C" fn h_c02_seq() {
    let g = Gauge::new();
    sym::check(g.value() == 0, "a new gauge is 0");
    sym::check(Gauge::default().value() == 0, "a default gauge is 0");
    let init = sym::i64("init");
    let g = Gauge::with_value(init);
    sym::check(g.value() == init, "a gauge starts at its initial value");
    let mut v = init;
    for i in 0..3 {
        let o = pick(["a", "b", "c"][i], 7);
        let got = run(&g, o);
        let (ret, next) = spec(v, o);
        sym::check(got == ret, "every operation returns the previous value");
        sym::check(g.value() == next, "the new value is the specified one");
        sym::observe(got as u64);
        v = next;
    }
    sym::cover("end");
}

#[no_mangle]
pub extern "C" fn h_c02_ops() {
    use metriken::{Metric, Value};
    static G: Gauge = Gauge::new();
    let a = sym::i64("a");
    G.set(a);
    let m: &dyn Metric = &G;
    sym::check(m.is_enabled(), "a gauge is enabled");
    match m.value() {
        Some(Value::Gauge(v)) => {
            sym::check(v == a, "the metric value is the gauge's value");
            sym::cover("gauge value")
        }
        _ => sym::check(false, "a gauge reports a gauge value"),
    }
    match m.as_any().and_then(|x| x.downcast_ref::<Gauge>()) {
        Some(g) => {
            let b = sym::i64("b");
            sym::check(g.sub(b) == a, "the downcast gauge is the gauge");
            sym::check(G.value() == a.wrapping_sub(b), "updates through Any are visible");
        }
        None => sym::check(false, "a gauge downcasts to Gauge"),
    }
}

fn explain(v: i64, ops: &[&[(Op, i64)]], at: &mut [usize], fin: i64) -> bool {
    let mut any = false;
    let mut more = false;
    for t in 0..ops.len() {
        if at[t] < ops[t].len() {
            more = true;
            let (o, got) = ops[t][at[t]];
            let (ret, next) = spec(v, o);
            at[t] += 1;
            let rest = explain(next, ops, at, fin);
            at[t] -= 1;
            any |= (got == ret) & rest;
        }
    }
    if more {
        any
    } else {
        v == fin
    }
}

fn par(n: usize, per: usize) {
    let mut plan: Vec<Vec<Op>> = vec![];
    for t in 0..n {
        let mut l = vec![];
        for k in 0..per {
            // in two-operation threads the first is a read-modify-write, the second any of three
            let o = if k == 0 {
                pick(["t0", "t1", "t2"][t], 6)
            } else {
                let k = [0, 4, 6][sym::choose(3, ["u0", "u1", "u2"][t])];
                Op { kind: k, arg: sym::i64(["v0", "v1", "v2"][t]) }
            };
            l.push(o);
        }
        plan.push(l);
    }
    check_plan(plan)
}
fn check_plan(plan: Vec<Vec<Op>>) {
    let n = plan.len();
    let init = sym::i64("init");
    let g = Gauge::with_value(init);
    let mut res: Vec<Vec<(Op, i64)>> = plan.iter().map(|l| Vec::with_capacity(l.len())).collect();
    {
        let gr = &g;
        let mut tids = vec![];
        for (ops, out) in plan.iter().zip(res.iter_mut()) {
            tids.push(unsafe {
                sym::spawn_borrow(move || {
                    for o in ops {
                        let r = run(gr, *o);
                        out.push((*o, r));
                    }
                })
            });
        }
        for t in tids {
            sym::join(t);
        }
    }
    let fin = g.value();
    let refs: Vec<&[(Op, i64)]> = res.iter().map(|v| &v[..]).collect();
    let mut at = vec![0; n];
    let ok = explain(init, &refs, &mut at, fin);
    sym::check(ok, "the results of concurrent operations are those of some one-at-a-time order");
    for r in &res {
        for (_, g) in r {
            sym::observe(*g as u64);
        }
    }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c02_par2() {
    par(2, 2)
}
#[no_mangle]
pub extern "C" fn h_c02_par3() {
    par(3, 1)
}

/// One operation against a whole run of updates by another thread.
#[no_mangle]
pub extern "C" fn h_c02_contended() {
    let one = pick("t0", 6);
    let kind = [0, 4][sym::choose(2, "t1.op")];
    let run = (0..5).map(|k| Op { kind, arg: sym::i64(&format!("t1.arg{k}")) }).collect();
    check_plan(vec![vec![one], run])
}
