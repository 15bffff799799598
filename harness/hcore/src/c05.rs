//! C05: a histogram increment counts exactly one value in its own bucket.
use crate::sym;
use metriken::histogram::{Config, Error};
use metriken::AtomicHistogram;

/// 2^m - 1, the largest value a configuration can represent
fn top(m: u8) -> u64 {
    u64::MAX >> (64 - m as u32)
}

/// Does bucket `i` contain `v`? From the documented layout: values below 2^(g+1) have a bucket
/// each, above that every power of two is split into 2^g equal buckets.
fn holds(g: u8, i: usize, v: u64) -> bool {
    let (g, i) = (g as u32, i as u64);
    let step = i >> g; // 0 and 1: exact buckets
    if step < 2 {
        return v == i;
    }
    let width = 1u64 << (step - 1);
    let lo = (1u64 << (g as u64 + step - 1)) + (i & ((1 << g) - 1)) * width;
    (v >= lo) & (v <= lo + (width - 1))
}
fn buckets(g: u8, m: u8) -> usize {
    (2usize << g) + (m - g - 1) as usize * (1 << g)
}

fn one(g: u8, m: u8) {
    ranges(g, m, m < 40)
}
fn ranges(g: u8, m: u8, ranges: bool) {
    let h = AtomicHistogram::new(g, m);
    let c = h.config();
    sym::check(c.grouping_power() == g && c.max_value_power() == m, "config is the declared one");
    sym::check(h.load().is_none(), "nothing before the first use");
    let n = buckets(g, m);
    let v = sym::u64("v");
    let r = h.increment(v);
    let fits = v <= top(m);
    match r {
        Ok(()) => {
            sym::check(fits, "an increment succeeds only for a representable value");
            sym::cover("counted");
        }
        Err(Error::OutOfRange) => {
            sym::check(!fits, "an increment of a representable value succeeds");
            sym::cover("rejected");
        }
        Err(_) => sym::check(false, "the only error is out of range"),
    }
    match h.load() {
        Some(l) => {
            let lc = l.config();
            sym::check(lc.grouping_power() == g && lc.max_value_power() == m, "the loaded histogram has the declared configuration");
            let s = l.as_slice();
            sym::check(s.len() == n, "the loaded histogram has the declared number of buckets");
            let mut ok = true;
            for i in 0..n {
                let e = (fits & holds(g, i, v)) as u64;
                ok &= s[i] == e;
            }
            sym::check(ok, "exactly the value's bucket holds one");
        }
        None => sym::check(!fits, "something to load after a successful increment"),
    }
    // the bucket's own idea of its range
    if !ranges {
        sym::cover("end");
        return;
    }
    if let Some(l) = h.load() {
        let mut hit = 0u64;
        let mut inside = true;
        for b in &l {
            let one = b.count() == 1;
            hit = hit.wrapping_add(b.count());
            inside &= !one | ((b.start() <= v) & (v <= b.end()));
        }
        sym::check(hit == fits as u64, "one bucket counts the value");
        sym::check(inside, "the counting bucket's range contains the value");
    }
    sym::cover("end");
}

#[no_mangle]
pub extern "C" fn h_c05_small() {
    // every configuration with max_value_power up to 5
    let m = 1 + sym::choose(5, "max_value_power") as u8;
    let g = sym::choose(m as usize, "grouping_power") as u8;
    one(g, m);
}
#[no_mangle]
pub extern "C" fn h_c05_mid() {
    let (g, m) = [(0, 16), (1, 12), (2, 16), (3, 10), (4, 9), (5, 6), (0, 63), (0, 62)][sym::choose(8, "cfg")];
    one(g, m);
}
#[no_mangle]
pub extern "C" fn h_c05_wide() {
    let (g, m) = [(0, 64), (1, 64)][sym::choose(2, "cfg")];
    one(g, m);
}
#[no_mangle]
pub extern "C" fn h_c05_wide2() {
    let (g, m) = [(2, 64), (3, 64), (2, 63)][sym::choose(3, "cfg")];
    one(g, m);
}

/// Two increments of arbitrary values: counts add up.
fn two(g: u8, m: u8, threads: bool) {
    let h = AtomicHistogram::new(g, m);
    let n = buckets(g, m);
    let (v, w) = (sym::u64("v"), sym::u64("w"));
    let hr = &h;
    if threads {
        sym::par2(
            || {
                let r = hr.increment(v);
                sym::check(r.is_ok() == (v <= top(m)), "the result says whether the value fits");
            },
            || {
                let r = hr.increment(w);
                sym::check(r.is_ok() == (w <= top(m)), "the result says whether the value fits");
            },
        );
    } else {
        sym::check(h.increment(v).is_ok() == (v <= top(m)), "the result says whether the value fits");
        sym::check(h.increment(w).is_ok() == (w <= top(m)), "the result says whether the value fits");
    }
    match h.load() {
        Some(l) => {
            let s = l.as_slice();
            sym::check(s.len() == n, "the declared number of buckets");
            let mut ok = true;
            for k in 0..n {
                let e = (((v <= top(m)) & holds(g, k, v)) as u64).wrapping_add(((w <= top(m)) & holds(g, k, w)) as u64);
                ok &= s[k] == e;
            }
            sym::check(ok, "every bucket counts the increments of its values");
        }
        None => sym::check(!(v <= top(m)) & !(w <= top(m)), "something to load after a successful increment"),
    }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c05_two() {
    let (g, m) = [(0, 1), (0, 3), (1, 3), (2, 4)][sym::choose(4, "cfg")];
    two(g, m, false)
}
#[no_mangle]
pub extern "C" fn h_c05_race() {
    two(0, 2, true)
}
/// Loads while another thread increments.
#[no_mangle]
pub extern "C" fn h_c05_race_load() {
    let h = AtomicHistogram::new(0, 2);
    let v = sym::int(2, "v");
    let hr = &h;
    sym::par2(
        || {
            sym::check(hr.increment(v).is_ok(), "a fitting value");
            sym::check(hr.increment(v).is_ok(), "a fitting value");
            match hr.load() {
                Some(l) => sym::check(l.as_slice().iter().sum::<u64>() == 2, "a load after two increments sees both"),
                None => sym::check(false, "something to load after a successful increment"),
            }
        },
        || {
            if let Some(l) = hr.load() {
                let s = l.as_slice();
                sym::check(s.len() == 3 && l.config() == Config::new(0, 2).unwrap(), "a load has the declared configuration");
                let mut ok = true;
                for k in 0..3 {
                    ok &= s[k] <= 2 * holds(0, k, v) as u64;
                }
                sym::check(ok, "a concurrent load sees some of the increments");
                sym::cover("loaded");
            }
        },
    );
    sym::cover("end");
}

/// Counts are free-running: they wrap rather than panic, and many increments add up.
#[no_mangle]
pub extern "C" fn h_c05_many() {
    let h = AtomicHistogram::new(1, 4);
    let n = buckets(1, 4);
    let mut want = vec![0u64; n];
    for k in 0..3 {
        let v = sym::int(4, ["v0", "v1", "v2"][k]);
        sym::check(h.increment(v).is_ok(), "a fitting value");
        for b in 0..n {
            want[b] = want[b].wrapping_add(holds(1, b, v) as u64);
        }
        let l = h.load();
        let mut ok = l.is_some();
        if let Some(l) = l {
            for b in 0..n {
                ok &= l.as_slice()[b] == want[b];
            }
        }
        sym::check(ok, "every bucket counts the increments of its values");
    }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_c05_wide3() {
    one(4, 64);
}
#[no_mangle]
pub extern "C" fn h_c05_wide5() {
    let (g, m) = [(5, 64), (7, 32)][sym::choose(2, "cfg")];
    ranges(g, m, false);
}
#[no_mangle]
pub extern "C" fn h_c05_wide7() {
    one(7, 64);
}

/// Which configurations are accepted: exactly the documented ones, by either histogram type.
#[no_mangle]
pub extern "C" fn h_c05_config() {
    let (g, m) = (sym::u8("grouping"), sym::u8("max"));
    let valid = (m >= 1) & (m <= 64) & (g < m);
    if sym::flag("bulk") {
        match std::panic::catch_unwind(|| metriken::RwLockHistogram::new(g, m)) {
            Ok(h) => {
                sym::check(valid, "an invalid configuration is refused");
                sym::check((h.config().grouping_power() == g) & (h.config().max_value_power() == m), "the declared configuration");
            }
            Err(_) => sym::check(!valid | (g > 24), "a valid configuration (of less than 2^30 buckets) is accepted"),
        }
    } else {
        match std::panic::catch_unwind(|| AtomicHistogram::new(g, m)) {
            Ok(h) => {
                sym::check(valid, "an invalid configuration is refused");
                sym::check((h.config().grouping_power() == g) & (h.config().max_value_power() == m), "the declared configuration");
            }
            Err(_) => sym::check(!valid | (g > 24), "a valid configuration (of less than 2^30 buckets) is accepted"),
        }
    }
    sym::cover("end");
}
