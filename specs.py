"""Which harnesses decide which property, with their bounds."""
import json
import os

CRATES = ["hcore", "hiter", "hexpo", "hderive", "hdecl"]

COMMON_ASSUMPTIONS = [
    "Sequentially consistent memory; every interleaving at atomic operations, futex calls and racing plain accesses is explored up to the stated preemption bound (switches at blocking operations are free).",
    "x86_64 Linux build of the stable toolchain, opt-level 1, overflow checks on; the encoding is the LLVM IR rustc emits for that build, including std and all dependencies.",
    "Allocation never fails; heap addresses are fresh unless a harness is marked reuse.",
    "clock_gettime, getrandom and the allocator are the stated deterministic models; futex is modelled FIFO without spurious wake-ups.",
]

EXPO_ASSUMPTIONS = [
    "The parquet crate's ArrowWriter is replaced by a recorder that keeps the schema, the writer properties and the record batches it is given (and errors on a schema mismatch or a used-up writer like the real one); the byte encoding of parquet files is the parquet crate's and outside.",
]


def known(kid):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")
    for k in json.load(open(p))["findings"]:
        if k["id"] == kid:
            return k
    return None


def H(entry, **k):
    return dict(entry=entry, **k)


# soft: goes beyond the core bounds; running out of time there is reported in the evidence, not an error
# tier="thorough": only run there; thorough={...}: option overrides there
P3 = {"preempt": 3}
P4 = {"preempt": 4}

PROPS = {
    "C01": {
        "crate": "hcore",
        "harnesses": [
            H("h_c01_seq"),
            H("h_c01_ops", covers=["counter value"]),
            H("h_c01_par2", thorough=P4),
            H("h_c01_par3", thorough=P4),
            H("h_c01_contended", soft=True, opts={"preempt": 12}),
            H("h_c01_entry", thorough=P4),
        ],
        "bounds": [
            "sequences of 3 operations with all 64-bit initial values and amounts",
            "2 threads x 2 operations and 3 threads x 1 operation, all amounts, all interleavings with at most 2 preemptions (4 in the thorough tier)",
            "one operation against 5 updates of another thread, all amounts, all interleavings",
        ],
        "outside": ["longer histories", "more threads", "weak memory orderings"],
    },
    "C02": {
        "crate": "hcore",
        "harnesses": [
            H("h_c02_seq"),
            H("h_c02_ops", covers=["gauge value"]),
            H("h_c02_par2", thorough=P4, cost=4),
            H("h_c02_par3", soft=True, thorough=P3, cost=9),
            H("h_c02_contended", soft=True, opts={"preempt": 12}),
        ],
        "bounds": [
            "sequences of 3 operations with all 64-bit initial values and amounts",
            "2 threads x 2 operations and 3 threads x 1 operation, all amounts, all interleavings with at most 2 preemptions (3 to 4 in the thorough tier)",
            "one operation against 5 updates of another thread, all amounts, all interleavings",
        ],
        "outside": ["longer histories", "more threads", "weak memory orderings"],
    },
    "C03": {
        "crate": "hcore",
        "harnesses": [
            H("h_c03_static"),
            H("h_c03_dynamic", seeds=[1, 7], seeds_thorough=[1, 2, 3, 7, 11]),
            H("h_c03_par", thorough=P4),
        ],
        "bounds": [
            "seven static metrics (every kind) and seven dynamic ones; all values and amounts; a custom metric with every combination of is_enabled, as_any and value answers",
            "one owner and one reader thread, at most 2 preemptions (4 thorough)",
        ],
        "outside": ["histograms larger than (0,3) seen through an entry", "metric types outside the crate other than the harness's own"],
    },
    "C04": {
        "crate": "hcore",
        "harnesses": [
            H("h_c04_seq", cost=2),
            H("h_c04_default"),
            H("h_c04_registry"),
            H("h_c04_panic"),
            H("h_c04_reenter"),
            H("h_c04_race_touch", thorough=P4),
            H("h_c04_race_look", covers=["end", "observer saw the instance"], thorough=P4),
            H("h_c04_race3", thorough=P4, cost=2),
        ],
        "bounds": [
            "up to 3 looks of any kind before the first access of any kind; all values; initialisers that panic or look at the registry",
            "two first accesses, an access and an observer, or two accesses and an observer; at most 2 preemptions (4 thorough)",
        ],
        "outside": ["initialisers that access the same lazy metric (a deadlock by construction)"],
    },
    "C05": {
        "crate": "hcore",
        "harnesses": [
            H("h_c05_small", covers=["counted", "rejected", "end"], cost=4),
            H("h_c05_mid", covers=["counted", "rejected", "end"], cost=5),
            H("h_c05_wide", covers=["counted", "end"], cost=2),
            H("h_c05_wide2", soft=True, covers=["counted", "end"], cost=5),
            H("h_c05_wide3", soft=True, covers=["counted", "end"], cost=5, opts={"max_cand": 2000}),
            H("h_c05_wide5", covers=["counted", "rejected", "end"], cost=30, tier="thorough", opts={"max_cand": 20000, "query_timeout": 200000}),
            H("h_c05_wide7", covers=["counted", "end"], cost=90, tier="thorough", opts={"max_cand": 20000, "query_timeout": 1200000}),
            H("h_c05_two"),
            H("h_c05_config"),
            H("h_c05_many"),
            H("h_c05_race", thorough=P3, cost=2),
            H("h_c05_race_load", covers=["end", "loaded"], thorough=P4),
        ],
        "bounds": [
            "every configuration with max_value_power up to 5, and (0,16) (1,12) (2,16) (3,10) (4,9) (5,6) (0,62) (0,63) (0,64) (1,64) (2,63) (2,64) (3,64) (4,64) (thorough: (5,64) (7,32) and (7,64), 7424 buckets), each with every 64-bit value",
            "all pairs of powers for which configurations are accepted (the histogram crate itself cannot count the buckets of those with 2^32 or more; grouping powers above 24 may be refused)",
            "up to 3 increments in sequence; 2 concurrent increments of all values, and a load concurrent with 2 increments, at most 2 preemptions (3 to 4 thorough)",
        ],
        "outside": ["other configurations with many buckets", "bucket counts near 2^64"],
    },
    "C06": {
        "crate": "hcore",
        "harnesses": [
            H("h_c06_seq", covers=["accepted", "rejected", "end"]),
            H("h_c06_race_load", thorough=P4),
            H("h_c06_race_reject", thorough=P4),
            H("h_c06_race_update", thorough=P4),
        ],
        "bounds": [
            "3 updates with data of length 0, n-1, n, n+1 or 2n, all contents, for configurations (0,1) (0,3) (1,3)",
            "an updater and a reader, two updaters, and a rejected and an accepted update, at most 2 preemptions (4 thorough), 2 buckets",
        ],
        "outside": ["larger configurations under concurrency"],
    },
    "C07": {
        "crate": "hcore",
        "harnesses": [
            H("h_c07_history", cost=3),
            H("h_c07_history", opts={"reuse": True}, cost=3),
            H("h_c07_history_long", cost=20, tier="thorough"),
            H("h_c07_history_long", opts={"reuse": True}, cost=20, tier="thorough"),
            H("h_c07_annotated"),
            H("h_c07_pinned"),
            H("h_c07_unwind"),
            H("h_c07_unwind", opts={"reuse": True}),
            H("h_c07_adjacent"),
            H("h_c07_old"),
            H("h_c07_drop_order", covers=["end", "destroyed"]),
            H("h_c07_race", soft=True, thorough=P3, cost=3),
            H("h_c07_race", soft=True, opts={"reuse": True}, thorough=P3, cost=3),
            H("h_c07_handover", thorough=P4),
            H("h_c07_handover", opts={"reuse": True}, thorough=P4),
        ],
        "bounds": [
            "all histories of 4 (thorough 6) build/drop/move/replace steps over 3 boxed metrics, two of which share a name; values symbolic; with fresh and with immediately reused addresses",
            "pinned metrics: unregistered, registered once, twice, two of one name, four next to each other; owners dropped by a panic",
            "two threads registering and dropping, and a drop concurrent with a registration, at most 2 preemptions (3 to 4 thorough)",
        ],
        "outside": ["more than 4 live metrics", "leaked handles (mem::forget)"],
    },
    "C08": {
        "crate": "hcore",
        "harnesses": [
            H("h_c08_hold", thorough=P3, cost=3),
            H("h_c08_views", soft=True, thorough=P3, cost=5),
            H("h_c08_shared", thorough=P4),
            H("h_c08_unwind", thorough=P3),
            H("h_c08_writers", soft=True, thorough=P3, cost=5),
        ],
        "bounds": [
            "a view held while another thread drops, registers, or registers and drops; two views and a registration; a view taken while another is held; a view whose holder panics; three writers; at most 2 preemptions (3 to 4 thorough)",
        ],
        "outside": ["more than 3 threads", "views held by the thread that registers or drops (documented deadlock)"],
    },
    "C09": {
        "crate": "hiter",
        "harnesses": [
            H("h_c09_complete"),
            H("h_c09_mix", cost=3),
            H("h_c09_mix3", soft=True, cost=5),
            H("h_c09_mix4", cost=20, tier="thorough"),
            H("h_c09_many", soft=True, cost=2),
            H("h_c09_dyn"),
            H("h_c09_dyn3", soft=True, cost=4),
            H("h_c09_complete", crate="hiter0"),
            H("h_c09_mix", crate="hiter0", cost=2),
            H("h_c09_many", crate="hiter0", soft=True, cost=2),
            H("h_c09_complete", crate="hiter5"),
            H("h_c09_mix", crate="hiter5", soft=True, cost=10),
            H("h_c09_mix3", crate="hiter5", cost=20, tier="thorough"),
        ],
        "bounds": [
            "2 static metrics (also 0 and 5, with 2 steps) and 0 to 3 dynamic ones (0 to 4 for the dynamic iterator); every sequence of 2 to 3 (thorough 4) of next, next_back, nth(n), nth_back(n) with every 64-bit n, then count, fold, rfold, collect, rev, or exhaustion",
            "7, 11, 12, 30 and 80 dynamic metrics with and without gaps, one such step and one such end",
        ],
        "outside": ["other numbers of static metrics"],
    },
    "C10": {
        "crate": "hcore",
        "harnesses": [
            H("h_c10_dynamic", seeds=[1, 2, 3], seeds_thorough=list(range(1, 13))),
            H("h_c10_dynamic_walk", seeds=[1, 2], seeds_thorough=list(range(1, 9)), cost=2),
            H("h_c10_static"),
            H("h_c10_static_walk", cost=2),
            H("h_c10_anykey", cost=3),
        ],
        "bounds": [
            "every subset of 4 keys with values of arbitrary 7-bit content; five compile-time maps of 0 to 5 pairs; hash seeds 1 to 3 (12 thorough)",
            "every sequence of 2 steps of next, nth(n) with every n, clone, then count, fold, last or for_each",
            "lookup of every one-character key",
        ],
        "outside": ["larger maps", "other hash seeds"],
    },
    "C11": {
        "crate": "hcore",
        "harnesses": [H("h_c11_two"), H("h_c11_three", soft=True, cost=4), H("h_c11_entry")],
        "bounds": ["every sequence of 3 provisions of 8 kinds over 6 type tags with all contents, each asked for every tag"],
        "outside": ["more provisions", "other types (the code is generic, each type is a separate instance)"],
    },
    "C12": {
        "crate": "hcore",
        "harnesses": [
            H("h_c12_calls2", seeds=[1, 5]),
            H("h_c12_calls3", soft=True, cost=5),
            H("h_c12_calls4", cost=25, tier="thorough"),
            H("h_c12_two"),
            H("h_c12_static"),
        ],
        "bounds": ["every sequence of 3 (thorough 4) builder calls of 8 kinds with symbolic strings and objects, built boxed, pinned, or into an entry; seven static declarations"],
        "outside": ["longer call sequences", "strings longer than 4 characters"],
    },
    "C13": {
        "crate": "hcore",
        "harnesses": [
            H("h_c13_dynamic", seeds=[1, 2, 3], seeds_thorough=list(range(1, 9)), cost=2),
            H("h_c13_static"),
            H("h_c13_custom"),
        ],
        "bounds": ["names of 0 to 2 arbitrary characters, every subset of 3 labels with values of 0 to 2 arbitrary characters; static metrics with 0, 2 and 5 labels"],
        "outside": ["more labels, longer texts"],
    },
    "C14": {
        "crate": "hexpo",
        "harnesses": [
            H("h_c14_states", seeds=[1, 7], seeds_thorough=[1, 2, 3, 7, 11], cost=3),
            H("h_c14_filter", cost=3),
            H("h_c14_dynamic", cost=2),
            H("h_c14_collide", cost=2),
            H("h_c14_same_name", cost=2),
            H("h_c14_panic", cost=2),
            H("h_c14_race", thorough=P3, cost=3),
        ],
        "bounds": [
            "seven static metrics (every kind, every state) and up to two dynamic ones of every kind; all values; every decision of the filter, and a filter panicking at any metric; names and labels of 0 to 2 arbitrary characters; two or three metrics of one name",
            "a snapshot concurrent with an update and a drop, at most 2 preemptions (3 thorough)",
        ],
        "outside": ["larger registries"],
    },
    "C15": {
        "crate": "hexpo",
        "harnesses": [
            H("h_c15_known", seeds=[1, 7], seeds_thorough=[1, 2, 3, 7, 11], cost=3),
            H("h_c15_other", seeds=[1, 7], seeds_thorough=[1, 2, 3, 7, 11], cost=3),
            H("h_c15_histogram", soft=True, seeds=[1, 7], seeds_thorough=[1, 2, 3, 7, 11], cost=3),
            H("h_c15_two", seeds=[1, 7], seeds_thorough=[1, 2, 3, 7, 11], cost=2),
        ],
        "bounds": ["every subset of 9 known and of 8 other labels with values of 0 to 2 arbitrary characters; two metrics in either order over up to 3 snapshots; hash seeds 1 and 7 (five thorough)"],
        "outside": ["more labels, longer values, other hash seeds"],
    },
    "C16": {
        "crate": "hexpo",
        "assumptions": EXPO_ASSUMPTIONS,
        "harnesses": [
            H("h_c16_two", seeds=[1, 7], cost=3),
            H("h_c16_sparse", cost=3),
            H("h_c16_three", soft=True, cost=3),
            H("h_c16_groups", cost=2),
            H("h_c16_time", cost=2),
            H("h_c16_same_name"),
            H("h_c16_labels", seeds=[1, 7], cost=2),
        ],
        "bounds": ["1 to 3 snapshots of up to 4 metrics, every presence pattern, all values; both versions and layouts; batch sizes 1 to 4; every time from 1970 and duration below 2^64 ns"],
        "outside": ["times before 1970 or beyond 2^64 ns (not representable in the column)", "batch size 0", "more snapshots or metrics", "the parquet byte encoding (parquet crate)"],
    },
    "C17": {
        "crate": "hexpo",
        "assumptions": EXPO_ASSUMPTIONS,
        "harnesses": [
            H("h_c17_labels", seeds=[1, 7], cost=2),
            H("h_c17_file", seeds=[1, 7], cost=2),
            H("h_c17_options"),
            H("h_c17_groups"),
        ],
        "bounds": ["up to 3 snapshots with every presence pattern of metric labels and metadata keys; every 32-bit compression level; batch sizes 1 to 4 in the file, every size through the builder; every order of builder calls"],
        "outside": ["more than 3 keys", "the parquet byte encoding (parquet crate)"],
    },
    "C18": {
        "crate": "hexpo",
        "harnesses": [H("h_c18_accessors", cost=2)],
        "bounds": ["snapshots of both versions with up to 2 metrics of each kind and all values; every sequence of 3 accessor calls followed by one of each"],
        "outside": ["larger snapshots"],
    },
    "C19": {
        "crate": "hexpo",
        "assumptions": EXPO_ASSUMPTIONS,
        "harnesses": [
            H("h_c19_equal", cost=8),
            H("h_c19_three", cost=4),
            H("h_c19_pieces", soft=True, cost=9),
            H("h_c19_long", cost=2),
            H("h_c19_truncated", covers=["end", "truncated"], cost=5),
            H("h_c19_corrupt_c", soft=True, covers=["end", "invalid", "still valid"], cost=15),
            H("h_c19_corrupt_h", soft=True, covers=["end", "invalid", "still valid"], cost=20),
            H("h_c19_corrupt_g", covers=["end", "invalid", "still valid"], cost=40, tier="thorough"),
            H("h_c19_corrupt_all", covers=["end", "invalid", "still valid"], cost=90, tier="thorough", opts={"timeout": 3600}),
            H("h_c19_garbage"),
            H("h_c19_read_fault", covers=["failed", "not reached"], cost=2),
            H("h_c19_write_fault", covers=["failed", "not reached"], cost=2),
        ],
        "bounds": [
            "streams of 0 to 3 snapshots from three templates of either version with free values, three sets of options; readers delivering 1 to 64 bytes at a time; snapshots around and beyond the 8 KiB buffer",
            "truncation after every byte; every byte of the first snapshot replaced by any other value (among letters and digits one other ASCII letter and all non-ASCII bytes); all streams of 1 or 2 bytes; the n-th read, the seek, and the n-th written byte or the flush failing",
        ],
        "outside": ["convert_file_path's opening of files", "several corrupted bytes", "input that changes between the passes", "the parquet byte encoding (parquet crate)"],
    },
    "C20": {
        "crate": "hexpo",
        "harnesses": [
            H("h_c20_mp_values"),
            H("h_c20_mp_time"),
            H("h_c20_mp_hist", cost=3),
            H("h_c20_mp_text", soft=True, cost=3),
            H("h_c20_hist_wide"),
            H("h_c20_sizes", cost=2),
            H("h_c20_json_values", cost=3),
            H("h_c20_json_time", cost=2),
            H("h_c20_json_text", soft=True, cost=8),
            H("h_c20_mp_text3", cost=10, tier="thorough"),
            H("h_c20_json_values20", cost=20, tier="thorough", opts={"query_timeout": 600000}),
        ],
        "bounds": [
            "msgpack: all 64-bit values, times, durations and bucket contents (up to 4 free buckets; wide configurations with one free bucket); texts of 2 (thorough 3) arbitrary Unicode characters in every place",
            "JSON: all 16-bit values (thorough 20-bit), powers of ten and their predecessors, extremes; times at the extremes; texts of 2 arbitrary Unicode characters",
            "collections of 0 to 17 elements, names of up to 65536 bytes",
        ],
        "outside": ["times before 1970 (not serialisable)", "all other 64-bit values in JSON"],
    },
    "C21": {
        "crate": "hderive",
        "assumptions": [
            "metriken-derive's sources are compiled as an ordinary library: proc_macro's token streams are proc_macro2's, syn::parse is syn::parse2, and the answer of proc_macro_crate::crate_name is an input (harness/derive-shim).",
            "The expansion is judged by the one declare_metric_v1 call it makes; what that macro turns into is judged on compiled declarations.",
        ],
        "harnesses": [
            H("h_c21_args2", cost=5),
            H("h_c21_args3", soft=True, cost=5),
            H("h_c21_orders", cost=3),
            H("h_c21_malformed"),
            H("h_c21_literals", soft=True, cost=20),
            H("h_c21_args4", tier="thorough", cost=30),
            H("h_c21_statics", crate="hdecl"),
            H("h_c21_values", crate="hdecl"),
        ],
        "bounds": [
            "expansion: every sequence of up to 2 of 11 argument forms (valid, repeated, unknown, malformed) over 5 items, of up to 3 of 6 forms, all orders of all five arguments, 20 malformed lists, every answer of the crate lookup; names, descriptions and keys with an arbitrary 7-bit character; thorough: up to 4 of 6 forms",
            "compiled: 14 declarations (module, function and macro level, every argument, renamed crate, lazy, histogram and custom types), all counter amounts",
        ],
        "outside": ["how rustc compiles other programs", "longer argument lists, other expressions as arguments"],
    },
    "C22": {
        "crate": "hexpo",
        "assumptions": EXPO_ASSUMPTIONS,
        "harnesses": [H("h_c22_configs", cost=3), H("h_c22_wide", cost=2), H("h_c22_rows", cost=2), H("h_c22_many", cost=2), H("h_c22_huge", cost=20)],
        "bounds": ["eight configurations of up to 8 buckets with all contents; (0,64) and (3,10) with two free buckets at every mirrored pair of positions; (5,64) and (11,64) (1,920 and 110,592 buckets) with two free buckets around the positions where an 8- or 16-bit index would wrap; 3 rows with every presence pattern"],
        "outside": ["larger configurations with more than 2 non-empty buckets", "the parquet byte encoding (parquet crate)"],
    },
    "C23": {
        "crate": "hcore",
        "harnesses": [H("h_c23_static"), H("h_c23_dynamic"), H("h_c23_dynamic", opts={"reuse": True}), H("h_c23_nested")],
        "bounds": ["seven static metrics and eight kinds of dynamic ones (sizes 1 to 168, alignments 1 to 32), with others registered and dropped in between, with fresh and with reused addresses"],
        "outside": ["zero-sized metrics (documented)"],
    },
    "C24": {
        "crate": "hcore",
        "harnesses": [H("h_c24_life"), H("h_c24_life3"), H("h_c24_life4", tier="thorough"), H("h_c24_order"), H("h_c24_order", opts={"reuse": True}),
                      H("h_c24_unwind"), H("h_c24_kinds"), H("h_c24_lazy", thorough={"preempt": 4}), H("h_c24_race", thorough={"preempt": 3}), H("h_c24_race", opts={"reuse": True})],
        "bounds": ["up to 3 (thorough 4) builder calls of 5 kinds, each followed by one of six ways to use or abandon the builder, each repeated four times while the number of live allocations is watched",
                   "three metrics dropped in every order, another one created in between, fresh and reused addresses", "owners that unwind; every metric kind, used and unused; lazy initialisers that own data",
                   "two owners, and an owner and a reader, in two threads, all interleavings with up to 2 (3) preemptions"],
        "outside": ["static metrics (never destroyed)", "memory that is kept for reuse without growing"],
    },
    "C25": {
        "crate": "hexpo",
        "harnesses": [H("h_c25_quiet", cost=3), H("h_c25_copy", cost=2), H("h_c25_race", thorough=P3, cost=3)],
        "bounds": ["seven static metrics of every kind (used and unused) and a dynamic one, all values; every pair of eight ways to look at all of them",
                   "a snapshot and loaded histograms compared with the state when they were taken, after updates of every metric and a drop",
                   "two updates concurrent with one look of each kind, at most 2 preemptions (3 thorough)"],
        "outside": ["more looks or updates; custom metrics whose own methods change them"],
    },
}

NOT_APPLICABLE = {}
