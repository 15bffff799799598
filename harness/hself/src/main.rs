// Not a property: exercises parts of std that metriken's code might come to use, so that the engine is known to handle them.
#[path = "../../common/sym.rs"]
#[macro_use]
mod sym;
use std::collections::*;
use std::sync::atomic::*;
use std::sync::*;
use std::fmt::Write as _;
use std::io::{BufRead, Read, Write};

#[no_mangle]
pub extern "C" fn h_coll() {
    let x = sym::u64("x");
    let k = sym::choose(4, "k");
    let mut b = BTreeMap::new();
    let mut h = HashMap::new();
    for i in 0..40usize {
        b.insert(i * 7 % 41, x.wrapping_add(i as u64));
        *h.entry((i % 5).to_string()).or_insert(0u64) ^= x;
    }
    b.retain(|k, _| k % 3 != 0);
    let s: u64 = b.range(5..20).map(|(_, v)| *v).fold(0, u64::wrapping_add);
    sym::observe(s);
    let (lo, hi) = (b.split_off(&20), b);
    sym::observe((lo.len() + hi.len() * 100) as u64);
    sym::check(lo.keys().next() == Some(&20) || lo.keys().next().is_some(), "lo");
    h.retain(|k, _| k != "3");
    sym::check(h.len() == 4 && h.values().all(|v| *v == 0), "xor even");
    let mut d: VecDeque<u64> = (0..9).map(|i| x ^ i).collect();
    d.rotate_left(k);
    d.push_front(3);
    let y = d.make_contiguous().to_vec();
    sym::check(y[0] == 3 && y[1] == x ^ (k as u64), "deque");
    let mut hp: BinaryHeap<_> = [3u64, 9, 1, 7, 5].into_iter().map(std::cmp::Reverse).collect();
    let mut o = vec![];
    while let Some(std::cmp::Reverse(v)) = hp.pop() { o.push(v) }
    sym::check(o == [1, 3, 5, 7, 9], "heap");
    let a: HashSet<u32> = (0..10).collect();
    let c: HashSet<u32> = (5..15).collect();
    sym::check(a.intersection(&c).count() == 5 && a.union(&c).count() == 15 && !a.is_subset(&c), "sets");
    let bs: BTreeSet<u32> = a.symmetric_difference(&c).copied().collect();
    sym::check(bs.iter().rev().next() == Some(&14) && bs.first() == Some(&0), "btreeset");
    let mut ll = LinkedList::new();
    ll.push_back(1); ll.push_front(x); sym::check(ll.pop_back() == Some(1) && ll.back() == Some(&x), "list");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_sort() {
    let k = sym::choose(3, "k");
    let n = [5, 23, 60][k];
    let mut v: Vec<u64> = (0..n as u64).map(|i| i * 7919 % 101).collect();
    let mut w = v.clone();
    let mut z: Vec<(u64, String)> = v.iter().map(|x| (*x, x.to_string())).collect();
    v.sort();
    w.sort_unstable_by(|a, b| b.cmp(a));
    z.sort_by_key(|p| p.1.clone());
    z.sort_by_cached_key(|p| p.0);
    w.reverse();
    sym::check(v == w && v.windows(2).all(|p| p[0] <= p[1]) && z.iter().map(|p| p.0).eq(v.iter().copied()), "sorted");
    v.dedup_by_key(|x| *x / 10);
    sym::observe(v.len() as u64);
    sym::check(w.binary_search(&w[n / 2]).is_ok(), "found");
    let (a, m, b) = w.select_nth_unstable(2);
    sym::check(a.len() == 2 && b.len() == n - 3 && *m <= 101, "nth");
    let c: Vec<u64> = w.chunks(4).map(|c| c.iter().sum()).collect();
    sym::check(c.iter().sum::<u64>() == w.iter().sum::<u64>(), "chunks");
    sym::check(w.iter().step_by(2).zip(w.iter().skip(1).step_by(2)).count() == n / 2, "zip");
    let (e, o): (Vec<u64>, Vec<u64>) = w.iter().partition(|x| **x % 2 == 0);
    sym::check(e.len() + o.len() == n, "partition");
    w.rotate_right(3); w.swap(0, 1); w.truncate(4); w.extend_from_within(..2); w.copy_within(0..2, 3); w.fill(9); w.insert(1, 4); w.drain(2..4);
    w.splice(0..1, [1, 2, 3]);
    sym::check(w.len() == 7 && w[3] == 4, "vec");
    // symbolic contents
    let mut s = [sym::u64("a"), sym::u64("b"), sym::u64("c"), sym::u64("d")];
    let sum = s.iter().copied().fold(0, u64::wrapping_add);
    let mx = s.iter().copied().max().unwrap();
    s.sort_unstable();
    sym::check((s[0] <= s[1]) & (s[1] <= s[2]) & (s[2] <= s[3]) & (s[3] == mx) & (s.iter().copied().fold(0, u64::wrapping_add) == sum), "symbolic sort");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_text() {
    let b = sym::u8("b");
    sym::assume(b.is_ascii_graphic());
    let s = format!("a{}b, c=d", b as char);
    sym::check(s.len() == 8, "len");
    let p: Vec<&str> = "x, y,,z".split(", ").collect();
    sym::check(p == ["x", "y,,z"], "split");
    sym::check(s.trim_start_matches('a').len() <= 7 && s.ends_with("c=d") && s.contains(", c") && s.rfind('=') == Some(6), "find");
    sym::check(s.split_once(", ").map(|p| p.1 == "c=d") == Some(true), "once");
    sym::check("Straße".to_uppercase() == "STRASSE" && "ÀB".to_lowercase() == "àb", "case");
    sym::check("12".parse::<u8>() == Ok(12) && "-5".parse::<i64>() == Ok(-5) && "300".parse::<u8>().is_err() && "1.5e3".parse::<f64>() == Ok(1500.0), "parse");
    sym::check(format!("{:>5}|{:<4}|{:^5}|{:04x}|{:#b}|{:+}|{:.2}|{:e}", 1, 2, 3, 255, 5, 7, 1.005f64, 1234.5f64) == "    1|2   |  3  |00ff|0b101|+7|1.00|1.2345e3", "fmt");
    sym::check(format!("{:?} {:?}", "a\"\n", Some([1, 2])) == "\"a\\\"\\n\" Some([1, 2])" && format!("{:#?}", (1, "x")).lines().count() == 4, "debug");
    sym::check("héllo".char_indices().nth(2) == Some((3, 'l')) && "a b  c".split_whitespace().rev().collect::<Vec<_>>().join("-") == "c-b-a", "chars");
    sym::check(String::from_utf8(vec![0xff]).is_err() && String::from_utf8_lossy(&[65, 0xff]) == "A\u{fffd}" && "a.b.c".replace('.', "::") == "a::b::c", "utf8");
    let mut o = String::new();
    write!(o, "{}-{:?}", u64::MAX, std::time::Duration::from_millis(1500)).unwrap();
    sym::check(o == "18446744073709551615-1.5s", "write");
    let mut t = s.clone(); t.insert_str(1, "zz"); t.retain(|c| c != 'z'); t.make_ascii_uppercase();
    sym::observe_str(&t);
    sym::check(s.eq_ignore_ascii_case(&t) || b == b'z', "ascii case");
    sym::check(s.bytes().filter(|c| *c == b',').count() == 1 + (b == b',') as usize, "count");
    sym::check("k".repeat(3) == "kkk" && "abc".cmp("abd").is_lt() && std::borrow::Cow::from("x").into_owned() == "x", "misc");
    let _ = std::panic::catch_unwind(|| { let v: Vec<u8> = vec![]; v[std::hint::black_box(3)] });
    eprintln!("to stderr {}", s.len());
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_arith() {
    let (x, y) = (sym::u64("x"), sym::u64("y"));
    let p = (x as u128) * (y as u128);
    sym::check(p as u64 == x.wrapping_mul(y), "u128 mul low");
    sym::check((x as u128 + y as u128) >> 64 == x.checked_add(y).is_none() as u128, "carry");
    sym::check(x.saturating_sub(y) == if x > y { x - y } else { 0 }, "sat");
    sym::check(x.abs_diff(y) == y.abs_diff(x), "absdiff");
    sym::check(x.rotate_left(13).rotate_right(13) == x && x.swap_bytes().swap_bytes() == x && x.reverse_bits().reverse_bits() == x, "rot");
    sym::check(x.leading_zeros() <= 64 && (x == 0 || x >> (63 - x.leading_zeros()) == 1), "lz");
    sym::check((x as u8).count_ones() + (x as u8).count_zeros() == 8, "popcnt");
    sym::check((x as i64).overflowing_neg().1 == (x == 1 << 63), "neg");
    sym::check((x as i64).signum() >= -1 && (x as i64).unsigned_abs() <= 1 << 63, "abs");
    sym::check(((x & 0xffff) % 1000) < 1000 && (x as i16).rem_euclid(7) >= 0, "rem");
    sym::check(u32::try_from(x).is_ok() == (x <= u32::MAX as u64) && i8::try_from(x as i64).is_ok() == ((x as i64) >= -128 && (x as i64) < 128), "try");
    sym::check(x.clamp(3, 9) >= 3 && x.min(y) <= x.max(y), "clamp");
    sym::check(u64::from_le_bytes(x.to_le_bytes()) == x && u64::from_be_bytes(x.to_be_bytes()) == x.swap_bytes().swap_bytes(), "bytes");
    sym::check(x.checked_div(0).is_none() && x.checked_next_power_of_two().map_or(true, |p| p.is_power_of_two()), "pow2");
    let s = (x & 0xffff) as u16;
    sym::check(s.checked_mul(3).is_none() == (s > 21845), "mul");
    let f = f64::from_bits(x);
    sym::check(f.is_nan() || f.abs() >= 0.0, "float abs");
    sym::check((s as f32 * 0.5).floor() as u32 == (s / 2) as u32, "float");
    sym::check(2f64.powi(10) == 1024.0 && 2.5f64.round() == 3.0 && (-1.5f64).trunc() == -1.0 && f64::MAX as u64 == u64::MAX && f64::NAN as i64 == 0, "consts");
    sym::check(10u64.pow(5) == 100000 && 99u64.isqrt() == 9 && 1000u64.ilog10() == 3, "pow");
    sym::check(f64::NAN.total_cmp(&1.0).is_gt() && 1.0f64.partial_cmp(&f64::NAN).is_none(), "cmp");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_io() {
    let x = sym::u8("x");
    let mut c = std::io::Cursor::new(vec![1u8, x, 3, b'\n', 5, 6]);
    let mut l = vec![];
    let mut r = std::io::BufReader::with_capacity(2, &mut c);
    r.read_until(b'\n', &mut l).unwrap();
    sym::check(l.len() == if x == b'\n' { 2 } else { 4 }, "line");
    let mut rest = vec![];
    r.read_to_end(&mut rest).unwrap();
    sym::check(l.len() + rest.len() == 6, "all");
    let mut w = std::io::BufWriter::with_capacity(3, Vec::new());
    w.write_all(&[x; 10]).unwrap();
    write!(w, "{}", 12).unwrap();
    let v = w.into_inner().unwrap();
    sym::check(v.len() == 12 && v[9] == x, "buf");
    let mut a = (&v[..3]).chain(&v[10..]).take(4);
    let mut o = [0; 4];
    a.read_exact(&mut o).unwrap();
    sym::check(o == [x, x, x, b'1'], "chain");
    sym::check((&v[..1]).read_exact(&mut o).unwrap_err().kind() == std::io::ErrorKind::UnexpectedEof, "eof");
    let e = std::io::Error::new(std::io::ErrorKind::Other, format!("bad {x}"));
    sym::check(e.to_string().starts_with("bad "), "error");
    let mut cr = std::io::Cursor::new(&v);
    use std::io::Seek;
    sym::check(cr.seek(std::io::SeekFrom::End(-2)).unwrap() == 10 && cr.stream_position().unwrap() == 10 && cr.rewind().is_ok(), "seek");
    let q: Vec<String> = "a\nb\r\nc".as_bytes().lines().map(|l| l.unwrap()).collect();
    sym::check(q == ["a", "b", "c"], "lines");
    sym::cover("end");
}
static LL: LazyLock<Mutex<Vec<u64>>> = LazyLock::new(|| Mutex::new(vec![]));
thread_local! { static TL: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) }; static TC: std::cell::Cell<u64> = std::cell::Cell::new(5); }
#[no_mangle]
pub extern "C" fn h_sync() {
    let x = sym::u64("x");
    let m = Mutex::new(0u64);
    let cv = Condvar::new();
    let rw = RwLock::new(x);
    let (m, cv, rw) = (&m, &cv, &rw);
    sym::par2(
        move || {
            let mut g = m.lock().unwrap();
            while *g == 0 { g = cv.wait(g).unwrap(); }
            sym::check(*g == 7, "handed");
            LL.lock().unwrap().push(x);
            TL.with(|t| t.borrow_mut().push(1));
            TC.set(6);
        },
        move || {
            *rw.write().unwrap() += 0;
            *m.lock().unwrap() = 7;
            cv.notify_all();
            LL.lock().unwrap().push(*rw.read().unwrap());
            sym::check(TC.get() == 5 && TL.with_borrow(|t| t.is_empty()), "thread local");
        },
    );
    sym::check(*LL.lock().unwrap() == [x, x], "both");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_chan() {
    let x = sym::u64("x");
    let (t, r) = mpsc::channel();
    let (st, sr) = mpsc::sync_channel::<u64>(1);
    sym::par2(
        move || { t.send(x).unwrap(); st.send(1).unwrap(); drop(t); },
        move || {
            let a = r.recv();
            sym::check(a == Ok(x) , "received");
            sym::check(sr.recv() == Ok(1) && r.recv().is_err(), "closed");
        },
    );
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_threads() {
    let x = sym::u64("x");
    let a = Arc::new(AtomicU64::new(x));
    let w = Arc::downgrade(&a);
    drop(a);
    sym::check(w.upgrade().is_none(), "weak");
    let b = AtomicU8::new(3);
    sym::check(b.fetch_max(9, Ordering::SeqCst) == 3 && b.fetch_nand(1, Ordering::SeqCst) == 9 && b.fetch_xor(1, Ordering::SeqCst) == 254 && b.fetch_min(1, Ordering::SeqCst) == 255, "u8");
    let c = AtomicBool::new(false);
    sym::check(c.fetch_or(true, Ordering::SeqCst) == false && c.compare_exchange(true, false, Ordering::SeqCst, Ordering::Relaxed) == Ok(true) && !c.swap(true, Ordering::SeqCst), "bool");
    let n = AtomicU64::new(x);
    sym::check(n.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| v.checked_add(1)).is_err() == (x == u64::MAX), "update");
    let mut z = 5u64;
    let ptr = AtomicPtr::new(&mut z);
    sym::check(unsafe { *ptr.load(Ordering::Acquire) } == 5, "ptr");
    fence(Ordering::SeqCst);
    let bar = Barrier::new(2);
    let k = AtomicU32::new(0);
    sym::par2(|| { k.fetch_add(1, Ordering::SeqCst); bar.wait(); sym::check(k.load(Ordering::SeqCst) == 2, "barrier"); }, || { k.fetch_add(1, Ordering::SeqCst); bar.wait(); sym::check(k.load(Ordering::SeqCst) == 2, "barrier"); });
    let i = std::time::Instant::now();
    std::thread::sleep(std::time::Duration::from_millis(1));
    let _ = i.elapsed();
    sym::check(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).is_ok(), "time");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_once() {
    let o = OnceLock::new();
    let once = Once::new();
    let n = AtomicU32::new(0);
    let (o, once, n) = (&o, &once, &n);
    let f = move || { let v = *o.get_or_init(|| { n.fetch_add(1, Ordering::SeqCst); 4 }); sym::check(v == 4, "once"); once.call_once(|| { n.fetch_add(10, Ordering::SeqCst); }); };
    sym::par2(f, f);
    sym::check(n.load(Ordering::SeqCst) == 11, "ran once each");
    let m = Mutex::new(1);
    sym::check(sym::panics(|| { let _g = m.lock().unwrap(); panic!("p") }) && m.is_poisoned() && m.lock().is_err(), "poison");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_misc() {
    let x = sym::u64("x");
    let fs: Vec<Box<dyn Fn(u64) -> u64>> = vec![Box::new(|v| v ^ 1), Box::new(move |v| v.wrapping_add(x))];
    let r = fs.iter().fold(3, |a, f| f(a));
    sym::check(r == x.wrapping_add(2), "dyn fn");
    let a: Box<dyn std::any::Any> = Box::new(x);
    sym::check(a.downcast::<u64>().map(|b| *b).ok() == Some(x), "any");
    let it: Box<dyn Iterator<Item = u64>> = if sym::flag("f") { Box::new((0..5).chain(7..9)) } else { Box::new([1u64, 2].into_iter().cycle().take(5)) };
    let v: Vec<u64> = it.inspect(|_| ()).filter_map(|v| (v > 0).then_some(v)).flat_map(|v| std::iter::repeat(v).take((v % 3) as usize)).scan(0, |a, v| { *a += v; Some(*a) }).take_while(|v| *v < 100).collect();
    sym::observe(v.len() as u64);
    let mut p = [1u64, 2, 3, 4].iter().peekable();
    while p.next_if(|v| **v < 3).is_some() {}
    sym::check(p.peek() == Some(&&3), "peek");
    let rs: Result<Vec<u64>, String> = ["1", "x"].iter().map(|s| s.parse::<u64>().map_err(|e| e.to_string())).collect();
    sym::check(rs.is_err(), "collect");
    let c = std::cell::RefCell::new(1);
    { let _b = c.borrow_mut(); sym::check(c.try_borrow().is_err(), "refcell"); }
    let rc = std::rc::Rc::new_cyclic(|w: &std::rc::Weak<u64>| { let _ = w.clone(); x });
    sym::check(*rc == x && std::rc::Rc::strong_count(&rc) == 1, "rc");
    let mut o = Some(x);
    sym::check(o.take() == Some(x) && o.replace(1).is_none() && std::mem::take(&mut o) == Some(1), "option");
    let s: String = vec!["a", "b"].concat();
    let ar: [String; 3] = std::array::from_fn(|i| format!("{s}{i}"));
    sym::check(ar.iter().map(|s| s.as_str()).max() == Some("ab2"), "array");
    let mut big = [0u64; 40];
    for (i, b) in big.iter_mut().enumerate() { *b = x.wrapping_mul(i as u64); }
    sym::check(big.iter().zip(0u64..).all(|(b, i)| *b == x.wrapping_mul(i)), "loop");
    sym::check(big == big.map(|v| v.wrapping_add(0)), "array eq");
    let mut hs = std::hash::DefaultHasher::new();
    use std::hash::{Hash, Hasher};
    ("abc", 5u8, [1u16, 2]).hash(&mut hs);
    sym::observe(hs.finish());
    sym::check(std::env::var("SURELY_NOT_SET").is_err(), "env");
    sym::check(sym::panics(|| { let v: Option<u8> = None; v.expect("none") }), "expect");
    sym::cover("end");
}
harnesses! { h_coll, h_sort, h_text, h_arith, h_io, h_sync, h_chan, h_threads, h_once, h_misc }
