//! C21, compiled: declarations in every style the attribute allows, through the real macro.
use crate::sym;
use crate::util::*;
use metriken::*;

pub mod bonus {
    pub use metriken::*;
}
const NAME: &str = "const/name";
fn fmt1(e: &MetricEntry, _: Format) -> String {
    format!("<{}>", e.name())
}
mod fmts {
    pub fn fmt2(e: &metriken::MetricEntry, f: metriken::Format) -> String {
        match f {
            metriken::Format::Simple => format!("2{}", e.name()),
            _ => "prom".to_string(),
        }
    }
}
#[metric]
static PLAIN: Counter = Counter::with_value(7);
#[metric()]
pub static EMPTY_ARGS: Gauge = Gauge::with_value(-3);
#[metric(name = "named")]
static A1: Counter = Counter::new();
#[metric(description = "described")]
pub(crate) static A2: Counter = Counter::with_value(u64::MAX);
#[metric(name = NAME, description = concat!("a", "b"), metadata = { x = "1", "y z" = concat!("2", "3"), },  formatter = fmt1)]
static A3: Gauge = Gauge::with_value(i64::MIN);
#[metric(formatter = fmts::fmt2, metadata = {}, description = "")]
static A4: LazyCounter = LazyCounter::new(|| Counter::with_value(11));
#[metric(metadata = { name = "other", description = "text", metadata = "", formatter = "f" }, name = "")]
static A5: AtomicHistogram = AtomicHistogram::new(1, 4);
#[bonus::metric(crate = crate::c21s::bonus, name = "through/bonus")]
static A6: RwLockHistogram = RwLockHistogram::new(0, 2);
/// doc comment
#[allow(dead_code)]
#[metric(name = "quote\"\\\n{}", metadata = { "k\"" = "v\n" })]
static A7: Counter = {
    const N: u64 = 2;
    Counter::with_value(N + 3)
};
mod m1 {
    #[metriken::metric(name = "twice")]
    pub static X: metriken::Counter = metriken::Counter::with_value(1);
}
mod m2 {
    #[metriken::metric(name = "twice", description = "second")]
    pub static X: metriken::Counter = metriken::Counter::with_value(2);
}
macro_rules! in_macro {
    ($id:ident, $name:expr) => {
        #[$crate::c21s::bonus::metric(crate = $crate::c21s::bonus, name = $name)]
        pub static $id: $crate::c21s::bonus::Counter = $crate::c21s::bonus::Counter::with_value(21);
    };
}
in_macro!(MAC, "in/macro");
#[derive(Default)]
struct Odd<T>(T);
impl<T: Send + Sync + 'static> Metric for Odd<T> {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}
#[metric]
static ODD: Odd<[u8; 3]> = Odd([1, 2, 3]);
/// A metric that provides things itself: what the declaration gives comes first.
struct Own;
struct Extra(u64);
static EXTRA: Extra = Extra(77);
static OWN_META: std::sync::OnceLock<Metadata> = std::sync::OnceLock::new();
fn own_fmt(_: &MetricEntry, _: Format) -> String {
    "own".to_string()
}
impl Metric for Own {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        r.provide_ref(OWN_META.get_or_init(|| Metadata::new([("own".to_string(), "o".to_string())].into())))
            .provide_value(metriken_core::export::FormattingFn(own_fmt))
            .provide_ref(&EXTRA);
    }
}
#[metric(name = "own", metadata = { declared = "d" }, formatter = fmt1)]
static OWN: Own = Own;
fn local() -> &'static Counter {
    #[metric(name = "in/function", metadata = { a = "b" })]
    static LOCAL: Counter = Counter::with_value(31);
    &LOCAL
}
const COUNT: usize = 15;

struct Want {
    metric: &'static dyn Metric,
    name: &'static str,
    desc: Option<&'static str>,
    meta: &'static [(&'static str, &'static str)],
    simple: &'static str,
}
fn want(i: usize) -> Want {
    let w = |metric, name, desc, meta, simple| Want { metric, name, desc, meta, simple };
    match i {
        0 => w(&PLAIN, "PLAIN", None, &[], "PLAIN"),
        1 => w(&EMPTY_ARGS, "EMPTY_ARGS", None, &[], "EMPTY_ARGS"),
        2 => w(&A1, "named", None, &[], "named"),
        3 => w(&A2, "A2", Some("described"), &[], "A2"),
        4 => w(&A3, "const/name", Some("ab"), &[("x", "1"), ("y z", "23")], "<const/name>"),
        5 => w(&A4, "A4", Some(""), &[], "2A4"),
        6 => w(&A5, "", None, &[("name", "other"), ("description", "text"), ("metadata", ""), ("formatter", "f")], ""),
        7 => w(&A6, "through/bonus", None, &[], "through/bonus"),
        8 => w(&A7, "quote\"\\\n{}", None, &[("k\"", "v\n")], "quote\"\\\n{}"),
        9 => w(&m1::X, "twice", None, &[], "twice"),
        10 => w(&m2::X, "twice", Some("second"), &[], "twice"),
        11 => w(&MAC, "in/macro", None, &[], "in/macro"),
        12 => w(&ODD, "ODD", None, &[], "ODD"),
        13 => w(&OWN, "own", None, &[("declared", "d")], "<own>"),
        _ => w(local(), "in/function", None, &[("a", "b")], "in/function"),
    }
}
/// Every declaration has exactly one entry, with what it was given, and nothing else is listed.
#[no_mangle]
pub extern "C" fn h_c21_statics() {
    let i = sym::choose(COUNT, "metric");
    let w = want(i);
    let m = metrics();
    sym::check(m.static_metrics().len() == COUNT, "one entry per declaration");
    let f: Vec<&MetricEntry> = m.static_metrics().iter().filter(|e| e.is(w.metric)).collect();
    sym::check(f.len() == 1, "exactly one entry");
    let e = f[0];
    sym::check(str_eq(e.name(), w.name), "its name");
    sym::check(opt_eq(e.description(), w.desc), "its description");
    let md = e.metadata();
    sym::check(md.len() == w.meta.len() && md.iter().count() == w.meta.len(), "as many metadata pairs as given");
    for (k, v) in w.meta {
        sym::check(opt_eq(md.get(k), Some(v)), "each metadata pair");
    }
    sym::check(str_eq(&e.formatted(Format::Simple), w.simple), "its formatter");
    sym::check(e.request_ref::<Extra>().map(|x| x.0) == (i == 13).then_some(77), "what the metric itself provides");
    sym::cover("end");
}
/// Each static has its declared type and initial value, and the entry shows updates.
#[no_mangle]
pub extern "C" fn h_c21_values() {
    let c: [(&'static Counter, u64); 7] = [(&PLAIN, 7), (&A1, 0), (&A2, u64::MAX), (&A7, 5), (&m1::X, 1), (&m2::X, 2), (local(), 31)];
    for (m, v) in c {
        sym::check(m.value() == v, "the counter's initial value");
    }
    sym::check(MAC.value() == 21 && EMPTY_ARGS.value() == -3 && A3.value() == i64::MIN && ODD.0 == [1, 2, 3], "the initial values");
    sym::check(Lazy::get(&A4).is_none() && A5.load().is_none() && A6.load().is_none(), "nothing yet");
    sym::check(A5.config().grouping_power() == 1 && A5.config().max_value_power() == 4 && A6.config().grouping_power() == 0 && A6.config().max_value_power() == 2, "the histograms' configurations");
    let i = sym::choose(c.len(), "counter");
    let x = sym::u64("x");
    c[i].0.add(x);
    A4.add(x);
    let m = metrics();
    for (j, (s, v)) in c.iter().enumerate() {
        let want = if i == j { v.wrapping_add(x) } else { *v };
        for e in m.static_metrics().iter().filter(|e| e.is(*s)) {
            sym::check(matches!(e.value(), Some(Value::Counter(k)) if k == want), "the entry shows the static's value");
        }
    }
    sym::check(Counter::value(&A4) == x.wrapping_add(11), "the lazy metric's initial value");
    sym::cover("end");
}
