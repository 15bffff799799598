//! C06: bulk histogram update replaces all buckets or changes nothing.
use crate::sym;
use metriken::histogram::{Error, Histogram};
use metriken::RwLockHistogram;

fn buckets(g: u8, m: u8) -> usize {
    (2usize << g) + (m - g - 1) as usize * (1 << g)
}
fn same(l: &Option<Histogram>, want: &Option<Vec<u64>>, g: u8, m: u8) -> bool {
    match (l, want) {
        (None, None) => true,
        (Some(l), Some(w)) => {
            let c = l.config();
            let s = l.as_slice();
            if c.grouping_power() != g || c.max_value_power() != m || s.len() != w.len() {
                return false;
            }
            let mut d = 0;
            for i in 0..w.len() {
                d |= s[i] ^ w[i];
            }
            d == 0
        }
        _ => false,
    }
}
fn data(n: usize, tag: &str) -> Vec<u64> {
    (0..n).map(|i| sym::u64(&format!("{tag}{i}"))).collect()
}

#[no_mangle]
pub extern "C" fn h_c06_seq() {
    let (g, m) = [(0, 1), (0, 3), (1, 3)][sym::choose(3, "cfg")];
    let h = RwLockHistogram::new(g, m);
    let n = buckets(g, m);
    sym::check(h.config().grouping_power() == g && h.config().max_value_power() == m, "config is the declared one");
    let mut want: Option<Vec<u64>> = None;
    sym::check(same(&h.load(), &want, g, m), "nothing before the first update");
    for k in 0..3 {
        let len = [n, n - 1, n + 1, 0, 2 * n][sym::choose(5, "len")];
        let d = data(len, ["a", "b", "c"][k]);
        match h.update_from(&d) {
            Ok(()) => {
                sym::check(len == n, "only data of the configured length is accepted");
                want = Some(d);
                sym::cover("accepted");
            }
            Err(Error::IncompatibleParameters) => {
                sym::check(len != n, "data of the configured length is accepted");
                sym::cover("rejected");
            }
            Err(_) => sym::check(false, "the error is incompatible parameters"),
        }
        sym::check(same(&h.load(), &want, g, m), "load returns the last accepted update");
        sym::check(same(&h.load(), &want, g, m), "load changes nothing");
    }
    sym::cover("end");
}

/// One updater, one reader: every load is one complete update (or nothing, before the first).
#[no_mangle]
pub extern "C" fn h_c06_race_load() {
    let h = RwLockHistogram::new(0, 1);
    let (a, b) = (data(2, "a"), data(2, "b"));
    let pre = sym::flag("pre");
    if pre {
        let z = data(2, "z");
        sym::check(h.update_from(&z).is_ok(), "accepted");
        let (hr, a, z) = (&h, &a, &z);
        sym::par2(
            move || {
                sym::check(hr.update_from(a).is_ok(), "accepted");
            },
            move || {
                let l = hr.load();
                sym::check(
                    same(&l, &Some(z.clone()), 0, 1) | same(&l, &Some(a.clone()), 0, 1),
                    "a concurrent load is one complete update",
                );
            },
        );
        sym::check(same(&h.load(), &Some(a.clone()), 0, 1), "the update is in place afterwards");
    } else {
        let (hr, a, b) = (&h, &a, &b);
        sym::par2(
            move || {
                sym::check(hr.update_from(a).is_ok(), "accepted");
                sym::check(hr.update_from(b).is_ok(), "accepted");
            },
            move || {
                let l = hr.load();
                sym::check(
                    l.is_none() || same(&l, &Some(a.clone()), 0, 1) | same(&l, &Some(b.clone()), 0, 1),
                    "a concurrent load is nothing or one complete update",
                );
            },
        );
        sym::check(same(&h.load(), &Some(b.clone()), 0, 1), "the last update is in place afterwards");
    }
    sym::cover("end");
}
/// A rejected update racing with a load and with an accepted one.
#[no_mangle]
pub extern "C" fn h_c06_race_reject() {
    let h = RwLockHistogram::new(0, 1);
    let (a, b) = (data(2, "a"), data(3, "b"));
    let (hr, ar, br) = (&h, &a, &b);
    sym::par2(
        move || {
            sym::check(hr.update_from(br).is_err(), "data of another length is rejected");
            let l = hr.load();
            sym::check(l.is_none() || same(&l, &Some(ar.clone()), 0, 1), "a rejected update changes nothing");
        },
        move || {
            sym::check(hr.update_from(ar).is_ok(), "accepted");
            sym::check(same(&hr.load(), &Some(ar.clone()), 0, 1), "load returns the last accepted update");
        },
    );
    sym::cover("end");
}
/// Two updaters: the end result is one of the two, unmixed.
#[no_mangle]
pub extern "C" fn h_c06_race_update() {
    let h = RwLockHistogram::new(0, 1);
    let (a, b) = (data(2, "a"), data(2, "b"));
    let (hr, ar, br) = (&h, &a, &b);
    sym::par2(
        move || {
            sym::check(hr.update_from(ar).is_ok(), "accepted");
            let l = hr.load();
            sym::check(same(&l, &Some(ar.clone()), 0, 1) | same(&l, &Some(br.clone()), 0, 1), "a load is one complete update");
        },
        move || {
            sym::check(hr.update_from(br).is_ok(), "accepted");
        },
    );
    let l = h.load();
    sym::check(same(&l, &Some(a.clone()), 0, 1) | same(&l, &Some(b.clone()), 0, 1), "the result is one complete update");
    sym::cover("end");
}
