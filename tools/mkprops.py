import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
CO="metriken/src/counter.rs";GA="metriken/src/gauge.rs";HI="metriken/src/histogram.rs";LA="metriken/src/lazy.rs"
DY="metriken-core/src/dynmetrics.rs";ME="metriken-core/src/metrics.rs";MD="metriken-core/src/metadata.rs";PR="metriken-core/src/provide.rs"
FO="metriken-core/src/formatter.rs";WR="metriken-core/src/wrapper.rs";LI="metriken-core/src/lib.rs"
SN="metriken-exposition/src/snapshot.rs";SR="metriken-exposition/src/snapshotter.rs";PQ="metriken-exposition/src/parquet.rs";CV="metriken-exposition/src/convert.rs"
p("C01","Counters lose no update and wrap modulo 2^64",
 "Whatever the amounts and however threads interleave, a counter's operations behave as if executed one at a time: add and increment return the previous value and increase it modulo 2^64, set and reset return the previous value and replace it (reset by 0), and value returns the current one. No increment is ever lost or counted twice, overflow wraps without panicking, and a new counter starts at 0 or at the given initial value.",
 ["inputs","schedules","histories"],"all 64-bit initial values and operands, all operation sequences, all interleavings of concurrent callers",
 "No test exercises Counter arithmetic near the wrap point or from two threads; 2^64 operands times schedules cannot be sampled.",
 [CO],[("atomic read-modify-write per operation","Counter::add/set in "+CO)],["return values and Counter::value(), Metric::value()"])
p("C02","Gauges lose no update and wrap in 64-bit two's complement",
 "Whatever the amounts and however threads interleave, a gauge's operations behave as if executed one at a time: add/increment and sub/decrement return the previous value and change it by exactly the amount in 64-bit two's-complement arithmetic, set and reset return the previous value and replace it, and value returns the current one. No update is lost, overflow and underflow wrap without panicking, including for operands i64::MIN and -1.",
 ["inputs","schedules","histories"],"all i64 initial values and operands, all operation sequences, all interleavings",
 "No test touches overflow, negative operands or concurrent use of Gauge.",
 [GA],[("atomic read-modify-write per operation","Gauge::add/sub/set in "+GA)],["return values and Gauge::value()"])
p("C03","A metric reached through its entry is the metric the owner updates",
 "For every metric kind, statically declared or dynamically built, lazily initialised or custom, the entry found in the registry reports exactly what the underlying metric reports at that moment: the same kind of value with the same number, the same is_enabled answer, and an as_any that downcasts to the concrete metric (and to nothing else) at the owner's address. Updates made through the owner are visible through the entry and the other way round.",
 ["inputs","histories","configurations"],"all values, all update histories, all metric kinds and registration routes",
 "Tests only check names and counts of entries; none compares entry-side readings with owner-side readings over values and kinds.",
 [LI,DY,WR,LA,CO,GA,HI],[("forwarding impls of Metric for the wrappers",WR+", "+DY),("Metric impls of the concrete kinds",CO+", "+GA+", "+HI+", "+LA)],["MetricEntry deref to dyn Metric: value, as_any, is_enabled"])
p("C04","Lazy metrics appear only once written and initialise exactly once",
 "A lazy metric reports nothing (not enabled, no value, no Any) until its owner first accesses it, and neither inspecting it nor iterating or snapshotting the registry ever initialises it. Under any interleaving of first accesses and inspections the initialiser runs exactly once, every access reaches the same instance, no update made through it is lost, and an observer sees either nothing or a fully initialised metric.",
 ["schedules","inputs","histories"],"all interleavings of concurrent first accesses and observers, all access histories",
 "Existing tests do not use Lazy at all, and a racy double initialisation shows only under particular schedules.",
 [LA],[("once-cell initialisation, get without init",LA)],["Lazy deref, Lazy::get, Metric::value/is_enabled/as_any"])
p("C05","A histogram increment counts exactly one value in its own bucket",
 "For every valid configuration and every 64-bit value, incrementing an atomic histogram either succeeds and raises by exactly one the count of the one bucket whose range contains the value, or, when the value exceeds what the configuration can represent, returns an out-of-range error and changes no count; it never panics. Counts equal the number of successful increments under any interleaving, and load returns nothing until the first use and afterwards a histogram of the declared configuration. A histogram cannot be declared with powers outside the documented range.",
 ["inputs","configurations","schedules"],"all u64 values, all valid (grouping_power, max_value_power), all interleavings of increments and loads",
 "No test increments a histogram through metriken; boundary values at powers of two and the configured maximum are never sampled.",
 [HI],[("bounded increment into lazily created buckets","AtomicHistogram::increment/load in "+HI)],["increment's result, load(), bucket ranges"])
p("C06","Bulk histogram update replaces all buckets or changes nothing",
 "Updating a bulk histogram with data of exactly the configured number of buckets makes every later load return precisely that data under the declared configuration, until the next successful update; data of any other length is rejected with an incompatible-parameters error and leaves what load returns unchanged. Concurrent loads see one complete update, never a mixture of two, and load returns nothing before the first successful update.",
 ["inputs","configurations","schedules","histories"],"all bucket contents and lengths, all configurations, all interleavings of updates and loads",
 "No test calls update_from; torn reads need a schedule, length errors an unusual input.",
 [HI],[("length check, then copy under the write lock; clone under the read lock","RwLockHistogram::update_from/load in "+HI)],["update_from's result, load()"])
p("C07","Dynamic metrics are listed exactly from registration to drop",
 "A dynamic metric is listed with the name, description and metadata it was registered with from the moment its registration returns until the moment its owner drops it, and never after that; building without registering lists nothing. Registering, moving, or dropping one metric, in any order and from any threads, never removes, hides, duplicates or alters the listing of another one, and never leaves an entry behind that refers to a destroyed metric. Registering a pinned metric again replaces its own listing.",
 ["histories","schedules"],"all sequences of build/register/move/drop over several metrics, all interleavings of such sequences",
 "tests/dynmetrics.rs runs four fixed sequences one at a time under a global mutex.",
 [DY,ME],[("registry keyed by metric address; Drop unregisters",DY),("global reader-writer lock",DY)],["metrics().iter(), dynamic_metrics()"])
p("C08","A held registry view stays complete and valid",
 "While a view of the registered metrics is held, every entry in it stays usable and refers to a live metric, and repeated iterations of the same view give the same entries; a registration or drop attempted meanwhile by another thread takes effect only after all views are released, and is never lost. Several views may be held at once by different threads, and no interleaving of viewing, registering and dropping (outside a thread that holds a view) deadlocks.",
 ["schedules","histories"],"all interleavings of viewers, registering and dropping threads",
 "No test has two threads touching the registry; a dangling entry needs a drop between the reader obtaining and using it.",
 [ME,DY],[("read guard held inside the view; write lock for register/unregister",ME+", "+DY)],["entries read through a held Metrics while other threads register/drop"])
p("C09","Every way of walking the registry agrees and visits each metric once",
 "Iterating all registered metrics yields every static and every dynamic metric exactly once, and any mixture of front and back stepping, skipping, counting and folding yields exactly what stepping one at a time over that same sequence would, however many static and dynamic metrics exist. The size hint always bounds the number of remaining items, and an exhausted iterator stays exhausted.",
 ["inputs","histories","configurations"],"all skip distances, all call sequences on the iterator, all numbers of static and dynamic metrics",
 "Tests only iterate forward or count; skipping from either end and hints are never called.",
 [ME],[("chained slice and tree iterators with hand-written nth/nth_back/fold/size_hint",ME)],["MetricsIter and DynMetricsIter methods"])
p("C10","Metadata is a faithful read-only map",
 "Metadata built from any set of key/value pairs, at compile time or run time, returns for every key exactly the value supplied for it and nothing for other keys; len, is_empty and contains_key agree with that set. Its iterator yields every pair exactly once, and stepping, skipping, counting, folding, cloning and its exact length all agree.",
 ["inputs","configurations","histories"],"all key/value sets, lookups and iterator call sequences, for compile-time and run-time metadata",
 "One test checks a few literal keys; iterator methods beyond next are untested.",
 [MD],[("two representations behind one API",MD)],["Metadata and MetadataIter methods"])
p("C11","Typed requests return the first value provided for exactly that type",
 "Requesting a value or a reference of some type from a metric returns the first one the metric provided under exactly that type and kind (by value or by reference), and nothing if none was; values of other types, later provisions, and the other kind never satisfy it. A provider closure runs only when its result is used, and the would-be-satisfied query answers exactly whether a provision now would be used.",
 ["inputs","programs","histories"],"all sequences of provide calls over values and types, all requested types",
 "One test requests Metadata from a map; ordering, laziness, and type confusion are not tested.",
 [PR,LI],[("type-tagged option with TypeId comparison before the cast",PR)],["request_value, request_ref, Request methods"])
p("C12","Everything given to the builder is visible on the registered entry",
 "Whatever is given to the metric builder (name, description, metadata pairs, provided data, formatter) is exactly what the resulting entry shows: the same name and description (or none), the metadata map of the last value per key, each provided object by its type, and formatting through the given formatter, or the default one when none was given. Builder calls do not affect one another, in any order.",
 ["inputs","histories","configurations"],"all strings, all subsets and orders of builder calls",
 "Tests build metrics with one name and fixed metadata; formatter on a dynamic metric is never tested.",
 [DY,LI,PR],[("provider map consulted by requests",DY+", "+PR),("formatted() looks up the formatter",LI)],["MetricEntry name/description/metadata/request_ref/formatted"])
p("C13","Default formatting shows exactly the name, plus labels for Prometheus",
 "The default formatter renders the simple format as exactly the metric's name, and the Prometheus format as the name followed, only if there is metadata, by a brace-enclosed list holding each key=\"value\" pair exactly once, separated by a comma and a space. A custom formatter replaces this entirely.",
 ["inputs","configurations"],"all names and metadata sets (including empty and special characters), both formats",
 "tests/formatter.rs checks two literal metrics.",
 [FO,LI],[("default_formatter",FO)],["MetricEntry::formatted"])
p("C14","A snapshot lists exactly the enabled, admitted metrics with their readings",
 "A snapshot contains, for every registered metric that the filter admits and that has a value, exactly one item of the matching kind with the metric's formatted name, its current reading and its metadata plus its description (and, for histograms, its two configuration powers), which take precedence over metadata of the same key; it contains nothing else: not filtered-out metrics, uninitialised lazy metrics, never-used histograms or unknown kinds. It carries the snapshotter's own metadata and a time between the start and the end of the call.",
 ["inputs","configurations","histories"],"all metric values, filter decisions and metadata; all mixes of metric kinds and states",
 "No test calls Snapshotter at all.",
 [SR],[("loop over the registry with per-kind conversion",SR)],["Snapshotter::snapshot()"])
p("C15","A metric's column name is a deterministic function of its labels",
 "The exported column name is the snapshot name itself when no 'metric' label exists; otherwise it is the 'metric' label followed, slash-separated, by the values of name, op, state, direction in that order, then the values of all other labels in key order except unit, grouping_power and max_value_power, then id last, each only if present. It does not depend on hash seeds, insertion order, or which snapshot it came from, so one metric always lands in one column.",
 ["inputs","configurations"],"all label maps, all hash seeds",
 "Unit tests check a handful of literal maps under one seed each.",
 [SN],[("canonicalize_metric_name over an ordered copy of the labels",SN)],["column names of the produced parquet schema"])
p("C16","Parquet rows reproduce the snapshots cell by cell",
 "Writing any sequence of snapshots produces exactly one row per snapshot in order; the row's timestamp and duration are that snapshot's, in nanoseconds (for times from 1970 on that fit 64 bits; duration null when it has none), each counter, gauge and histogram cell equals that snapshot's reading of the metric, and it is null exactly when that snapshot lacks the metric. The columns are exactly timestamp, duration, and one per distinct metric seen (two for a sparse histogram), and nothing is shifted to another row or column when metrics appear and disappear.",
 ["inputs","histories","configurations"],"all values, all presence patterns over the snapshots, both histogram layouts, both snapshot versions",
 "The parquet tests use one fixed pair of snapshots with fixed values.",
 [PQ,SN],[("two-pass schema then row conversion with null filling",PQ)],["columns and cells of the record batches / file"])
p("C17","Parquet schema, annotations and file metadata follow the stated precedence",
 "Each exported column carries the metric's labels from the first snapshot where it appeared plus its metric_type, with the right data type and nullability; the file-level metadata is that of the first snapshot that has any, overridden key by key by what the caller passes. The chosen histogram layout, compression and batch size are the ones used, and an invalid compression level is an error.",
 ["inputs","configurations","histories"],"all label and metadata maps, all option combinations, all snapshot orders",
 "Tests check a single configuration each with literal metadata.",
 [PQ],[("ParquetSchema::push/finalize",PQ)],["schema fields, field metadata, file key-value metadata"])
p("C18","Snapshot accessors expose the stored data, for both versions",
 "For a snapshot of either version the accessors return exactly the stored time, metadata, counters, gauges and histograms, taking one collection never disturbs another or the time, and a second take of the same collection is empty. The duration is the stored one for version 2 and absent for version 1.",
 ["inputs","histories"],"all snapshot contents, all orders of accessor calls, both versions",
 "No test calls the accessors in varying order; the version split is tested nowhere directly.",
 [SN],[("match over versions with mem::take",SN)],["Snapshot accessors"])
p("C19","Converting a msgpack stream equals exporting the snapshots directly",
 "Converting a stream of serialised snapshots to parquet gives the same columns, rows, cells and metadata as exporting those snapshots directly with the same options, and reports exactly the number of snapshots in the stream; an empty stream gives zero rows. A stream that is truncated or is not valid snapshot data, or whose reading, rewinding or writing fails, is reported as an error, never as success with fewer rows and never as a panic.",
 ["inputs","fault_sequences","configurations"],"all snapshot sequences within the bound, all truncation points and corrupted bytes, both versions",
 "One test converts one fixed stream; truncation and corruption are not tested.",
 [CV,PQ,SN],[("two passes over a buffered reader",CV)],["convert_file_handle's result and output"])
p("C20","Serialised snapshots read back as what was written",
 "A snapshot of either version serialised to msgpack or JSON and read back is the same snapshot: same version, time, duration, metadata and the same metrics with the same names, values, labels and histogram buckets. JSON output is one newline-terminated line.",
 ["inputs","configurations"],"all values, strings, and both versions and both encodings within the bound",
 "Only one msgpack stream with fixed small values is ever decoded by tests; JSON never.",
 [SN],[("serde derives with an untagged version enum; to_json/to_msgpack",SN)],["to_msgpack/to_json then deserialise"])
p("C21","The metric attribute declares exactly one faithfully described metric",
 "For every legal use of the attribute macro, the static keeps its type and initial value and exactly one registry entry exists for it, with the given name (or the identifier), description, metadata and formatter; illegal argument combinations are compile errors.",
 ["inputs"],"all argument lists and declarations within the bound",
 "UI tests cover three programs.",
 ["metriken-derive/src/metric.rs","metriken-derive/src/args.rs",LI],[("token-stream rewriting","metriken-derive/src/metric.rs")],["the expanded program"])
p("C22","Sparse and dense histogram exports carry the same distribution",
 "For every histogram and configuration, the sparse export lists exactly the non-empty buckets, by strictly increasing index with their counts, so that rebuilding it gives bucket for bucket the dense export of the same reading; both have a null where the metric is missing and an empty or all-zero list where it has no counts.",
 ["inputs","configurations"],"all bucket contents, all configurations within the bound",
 "The sparse test compares two fixed histograms.",
 [PQ],[("sparse conversion before writing",PQ)],["bucket_indices/bucket_counts/buckets cells"])
p("C23","Entry identity holds for the metric itself and for no other",
 "Asking an entry whether it is a given metric answers yes for the very metric it was declared or registered for, however that reference was obtained from its owner, and no for every other (non zero-sized) metric, whatever their values, types or names; this stays true when the owner handle is moved and when other metrics come and go.",
 ["histories","configurations"],"all pairs of metrics and entries, over registration histories",
 "One test checks one metric against one entry.",
 [LI,DY],[("address comparison","MetricEntry::is in "+LI)],["MetricEntry::is"])
p("C24","Dropping the owner destroys a dynamic metric and what it was given, exactly once",
 "A dynamic metric, a lazily created one included, and every object given to its builder stay intact while the owner handle lives, wherever it is moved, and are destroyed exactly once by the time the owner's drop returns (an abandoned builder's objects when it is dropped, a replaced object no later than its replacement's), also when the owner goes by unwinding and whatever other threads do with the registry. A lazy metric's initialiser and value are destroyed exactly once. Creating and dropping metrics over and over leaves no memory behind.",
 ["histories","schedules"],"histories of building, registering, moving, using and dropping, and the interleavings of owners and readers",
 "No test looks at destruction or at memory at all.",
 [DY,LA,PR],[("ownership of the metric","DynPinnedMetric, DynBoxedMetric in "+DY),("ownership of provided objects","ProviderMap in metriken-core/src/provide.rs"),("ownership of the initialiser","Lazy in metriken/src/lazy.rs")],["MetricBuilder::build","DynBoxedMetric","DynPinnedMetric","Lazy"])
p("C25","Observing metrics never changes them",
 "Iterating the registry, reading values, downcasting, formatting, loading histograms, reading metadata and taking snapshots, in any combination, leave every metric's reading, the set of listed metrics and the state of lazy metrics and unused histograms exactly as they were; updates that other threads make meanwhile are not lost, and start from the readings left by the updates before. Snapshots and loaded histograms are copies: later updates and drops do not change them.",
 ["histories","schedules","inputs"],"combinations of observations, metric states and values, and interleavings of updates and observations",
 "The tests look at a metric at most once and never while it is updated.",
 [SR,CO,GA,HI,LA,ME],[("snapshotting","Snapshotter::snapshot in "+SR),("reading","Counter::value, Gauge::value, AtomicHistogram::load, RwLockHistogram::load, Lazy as Metric")],["Snapshotter::snapshot","metrics","MetricEntry::value","load"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
