#!/usr/bin/env python3
"""Runs the solver-based check of one property (see DESIGN.md).

  check.py C01 [--tier quick|thorough] [--only ENTRY] [--keep]
  check.py --build [crate ...]        build engine and harness encodings only
  check.py --replay FILE              replay a recorded counterexample on the current tree
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
        del ENV[k]
ENV.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")

sys.path.insert(0, V)
sys.dont_write_bytecode = True
import specs  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


def run(cmd, cwd=None, env=None, timeout=1700):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


def build_engine():
    tgt = os.path.join(B, "engine")
    run(["cargo", "build", "--release", "--offline", "--target-dir", tgt], cwd=os.path.join(V, "engine"))
    return os.path.join(tgt, "release", "llsym")


def sysroot():
    return run(["rustc", "--print", "sysroot"]).strip()


def build_rt():
    o = os.path.join(B, "sym_rt.o")
    run(["cc", "-O1", "-g", "-w", "-c", os.path.join(V, "harness/common/sym_rt.c"), "-o", o])
    return o


def prepare_parquet():
    """The real parquet crate with only ArrowWriter replaced by the recorder (see DESIGN.md)."""
    m = re.search(r'name = "parquet"\nversion = "([^"]+)"', open(os.path.join(REPO, "Cargo.lock")).read())
    home = ENV.get("CARGO_HOME", "/root/.cargo")
    src = glob.glob(os.path.join(home, "registry/src/*/parquet-" + (m.group(1) if m else "*")))
    if not src:
        raise CheckError("parquet crate source not found")
    dst = os.path.join(B, "parquet-rec")
    rec = open(os.path.join(V, "harness/parquet-rec/recorder.rs")).read()
    stamp = hashlib.sha256((src[0] + rec + open(os.path.abspath(__file__)).read()).encode()).hexdigest()
    sf = os.path.join(dst, ".stamp")
    if os.path.exists(sf) and open(sf).read() == stamp:
        return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree(os.path.join(src[0], "src"), os.path.join(dst, "src"))
    # only the library target, no compression codecs
    out, skip = [], False
    for l in open(os.path.join(src[0], "Cargo.toml")).read().splitlines():
        if l.startswith("["):
            skip = l in ("[[bin]]", "[[example]]", "[[test]]", "[[bench]]") or "dev-dependencies" in l
        if not skip:
            out.append(l)
    toml = "\n".join(l for l in out if not l.startswith("test_common"))
    for c in ("snap", "brotli", "flate2", "lz4", "zstd", "simdutf8"):
        toml = re.sub(r'(default = \[[^\]]*?)\s*"%s",' % c, r"\1", toml)
    open(os.path.join(dst, "Cargo.toml"), "w").write(toml + "\n")
    f = os.path.join(dst, "src/arrow/arrow_writer/mod.rs")
    t = open(f).read()
    a = t.index("pub struct ArrowWriter<W: Write> {")
    b = t.index("impl<W: Write + Send> RecordBatchWriter for ArrowWriter<W>")
    open(f, "w").write(t[:a] + rec.split("\n\n", 1)[1].replace("/// What one", "\n/// What one", 1) + t[b:])
    with open(sf, "w") as fh:
        fh.write(stamp)


def prepare_derive():
    """metriken-derive's current sources as an ordinary library (see DESIGN.md and harness/derive-shim)."""
    src = os.path.join(REPO, "metriken-derive", "src")
    dst = os.path.join(B, "derive-lib")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, os.path.join(dst, "src"))
    f = os.path.join(dst, "src", "lib.rs")
    t = re.sub(r"#\[proc_macro_(attribute|derive\([^\]]*\))\]|#\[proc_macro\]", "", open(f).read())
    open(f, "w").write(t + "\nextern crate shim_proc_macro as proc_macro;\n")
    sh = os.path.join(B, "derive-shim")
    shutil.rmtree(sh, ignore_errors=True)
    shutil.copytree(os.path.join(V, "harness", "derive-shim"), sh)
    open(os.path.join(dst, "Cargo.toml"), "w").write("""[package]
name = "derive-lib"
version = "0.1.0"
edition = "2021"

[dependencies]
proc-macro2 = { version = "1.0.39", default-features = false }
quote = { version = "1.0.9", default-features = false }
syn = { package = "shim-syn", path = "../derive-shim/syn" }
shim-proc-macro = { path = "../derive-shim/proc_macro" }
proc-macro-crate = { package = "shim-proc-macro-crate", path = "../derive-shim/proc_macro_crate" }
""")


def build_harness(crate, rt):
    """Compile the harness crate against /repo; returns (LLVM IR path, native binary path)."""
    src = os.path.join(V, "harness", crate)
    tgt = os.path.join(B, "t-" + crate)
    # scratch copy of the manifest directory: cargo writes its lock file there
    work = os.path.join(B, "w-" + crate)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    shutil.copy(os.path.join(src, "Cargo.toml"), work)
    for d in os.listdir(src):
        if d not in ("Cargo.toml", "Cargo.lock", "target"):
            os.symlink(os.path.join(src, d), os.path.join(work, d))
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(V, "harness", "Cargo.lock.base")
    shutil.copy(lock, os.path.join(work, "Cargo.lock"))
    if "parquet-rec" in open(os.path.join(src, "Cargo.toml")).read():
        prepare_parquet()
    if "derive-lib" in open(os.path.join(src, "Cargo.toml")).read():
        prepare_derive()
    stamp = os.path.join(tgt, "tree.sha256")
    th = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    fp = os.path.join(tgt, "release", ".fingerprint")
    pats = [crate + "-*"] + ([] if old == th else ["metriken*"])
    for pat in pats:
        for d in glob.glob(os.path.join(fp, pat)):
            shutil.rmtree(d, ignore_errors=True)
    for f in glob.glob(os.path.join(tgt, "release", "deps", crate + "-*")) + glob.glob(os.path.join(tgt, "release", crate)):
        os.remove(f)
    run(["cargo", "rustc", "--offline", "--release", "--target-dir", tgt, "--", "-C", "save-temps", "--emit=llvm-ir,link", "-C", "link-arg=" + rt], cwd=work)
    lls = [f for f in glob.glob(os.path.join(tgt, "release", "deps", crate + "-*.ll")) if "rcgu" not in os.path.basename(f)]
    if len(lls) != 1:
        raise CheckError("expected one IR file, found %r" % lls)
    with open(stamp, "w") as f:
        f.write(th)
    for f in glob.glob(os.path.join(tgt, "release", "deps", crate + "-*rcgu*")):
        os.remove(f)
    return lls[0], os.path.join(tgt, "release", crate)


def build_instrumented(engine, ll, rt, racy, tag):
    sr = sysroot()
    llc = glob.glob(os.path.join(sr, "lib/rustlib/*/bin/llc"))
    if not llc:
        raise CheckError("llc not found in the toolchain")
    cb = glob.glob(os.path.join(sr, "lib/rustlib/x86_64-unknown-linux-gnu/lib/libcompiler_builtins-*.rlib"))
    base = os.path.join(B, "inst-" + tag)
    run([engine, "instrument", ll, base + ".ll"] + (["--racy", ";".join(racy)] if racy else []))
    run([llc[0], "-O0", "-relocation-model=pic", "-filetype=obj", base + ".ll", "-o", base + ".o"])
    run(["cc", base + ".o", rt] + cb + ["-o", base, "-lgcc_s", "-lpthread", "-lm", "-ldl"])
    os.remove(base + ".ll")
    os.remove(base + ".o")
    return base


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


# ---------------------------------------------------------------- native execution

def native(binary, entry, vectors, sched, seed, reuse, timeout=600):
    """Run vectors (dicts with inputs and sched) natively; returns a list of (status, obs, msg)."""
    lines = []
    for s in vectors:
        lines.append("V")
        for n, w, v in s["inputs"]:
            lines.append("I %s %s" % (n, v))
        if sched:
            for t, c in s["sched"]:
                lines.append("S %d %d" % (t, c))
        lines.append(".")
    f = os.path.join(B, "vec-%s-%d.txt" % (entry, os.getpid()))
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    env = dict(ENV)
    env.update(SYM_ENTRY=entry, SYM_FILE=f, SYM_SEED=str(seed))
    if reuse:
        env["SYM_REUSE"] = "1"
    try:
        p = subprocess.run([binary], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    finally:
        os.remove(f)
    out = []
    for l in p.stdout.splitlines():
        if l.startswith("R "):
            head, _, msg = l.partition(" | ")
            w = head.split()
            out.append((w[1], w[3:], msg))
    return out


# ---------------------------------------------------------------- one property

def engine_cmd(engine, ll, h, tier, out):
    o = dict(h.get("opts", {}))
    if tier == "thorough":
        o.update(h.get("thorough", {}))
    cmd = [engine, "run", ll, h["entry"], "--out", out, "--samples", str(o.get("samples", 12)), "--audit", str(o.get("audit", 2000)),
           "--preempt", str(o.get("preempt", 2)), "--seed", str(o.get("seed", 1)), "--timeout", str(o.get("timeout", (250 if h.get("soft") else 420) if tier == "quick" else 3000)),
           "--max-steps", str(o.get("max_steps", 20000000)), "--max-paths", str(o.get("max_paths", 5000000)), "--query-timeout", str(o.get("query_timeout", 60000)), "--max-cand", str(o.get("max_cand", 600))]
    cmd += ["--audit-seconds", "20" if tier == "quick" else "300"]
    if o.get("reuse"):
        cmd.append("--reuse")
    if tier == "thorough" and not o.get("no_cross"):
        cmd += ["--cross", "cvc5"]
    return cmd


def variants(prop, tier):
    hs = []
    for h in specs.PROPS[prop]["harnesses"]:
        if h.get("tier", "quick") == "thorough" and tier == "quick":
            continue
        seeds = h.get("seeds", [1])
        if tier == "thorough":
            seeds = h.get("seeds_thorough", seeds)
        for s in seeds:
            x = dict(h)
            x["opts"] = dict(h.get("opts", {}), seed=s)
            hs.append(x)
    return hs


def sh_quote(c):
    return " ".join(c)


def check(prop, tier, only=None):
    t0 = time.time()
    spec = specs.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev_path = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
    for f in [ev_path] + glob.glob(os.path.join(V, "evidence", "replays", prop + "-*")):
        if os.path.exists(f):
            os.remove(f)
    hs = [h for h in variants(prop, tier) if not only or h["entry"] == only]
    crates = sorted(set(h.get("crate", spec.get("crate", "hcore")) for h in hs))
    with Lock():
        engine = build_engine()
        rt = build_rt()
        built, unbuilt = {}, []
        for c in crates:
            try:
                built[c] = build_harness(c, rt)
            except CheckError as e:
                unbuilt.append("harness %s does not build: %s" % (c, e))
        if not built:
            raise CheckError(unbuilt[0])
        hs = [h for h in hs if h.get("crate", spec.get("crate", "hcore")) in built]
        log("built engine and harnesses %s in %.0f s" % (crates, time.time() - t0))
    outd = os.path.join(B, "out-" + prop)
    shutil.rmtree(outd, ignore_errors=True)
    os.makedirs(outd)

    # a quick check must answer within 900 s
    stop = {"at": t0 + 780 if tier == "quick" else t0 + 1e6, "why": ""}

    def one(i):
        h = hs[i]
        ll = built[h.get("crate", spec.get("crate", "hcore"))][0]
        out = os.path.join(outd, "%s-%d.json" % (h["entry"], i))
        cmd = engine_cmd(engine, ll, h, tier, out)
        limit = int(cmd[cmd.index("--timeout") + 1]) + 300
        if time.time() > stop["at"]:
            return h, None, "not run: out of time" + stop["why"]
        left = int(stop["at"] - time.time())
        if left < limit:  # let the engine itself stop in time, with a report
            cmd[cmd.index("--timeout") + 1] = str(max(10, min(limit - 300, left)))
        with open(out + ".err", "w") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, start_new_session=True)
            end = time.time() + limit
            while True:
                try:
                    p.wait(0.5)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > min(end, stop["at"] + 20):
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        return h, None, "stopped: out of time" + stop["why"]
        rc, err = p.returncode, open(out + ".err").read()
        if not os.path.exists(out):
            return h, None, "engine failed (rc %s): %s" % (rc, err[-2000:])
        r = json.load(open(out))
        if r["verdict"] == "violation" and not h.get("known"):
            # one counterexample decides the property; the other harnesses get a little longer
            stop["at"] = min(stop["at"], time.time() + 60)
            stop["why"] = " (another harness found a counterexample)"
        return h, r, err

    results = []
    order = sorted(range(len(hs)), key=lambda i: -hs[i].get("cost", 1))
    with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 8)) as ex:
        for h, r, err in ex.map(one, order):
            results.append((h, r, err))
            if r is None:
                log("%s: %s" % (h["entry"], err))
            else:
                log("%-28s seed %-3s %-12s paths %-7d checks %-8d queries %-6d solver %.1fs total %.1fs%s" % (
                    h["entry"], h["opts"].get("seed", 1), r["verdict"], r["stats"]["paths"], r["stats"]["checks"], r["solver"]["queries"], r["solver"]["seconds"], r["seconds"],
                    (" -- " + r["inconclusive"][:400]) if r.get("inconclusive") else ""))

    errors, violations, known, partial = unbuilt, [], [], []
    validated = 0
    inst = {}

    def instrumented(crate, r, entry):
        racy = r.get("racy_sites", [])
        key = (crate, tuple(racy))
        if key not in inst:
            inst[key] = build_instrumented(engine, built[crate][0], rt, racy, crate + "-" + prop)
            if len(inst) > 1:  # different sites: keep separate binaries
                n = inst[key] + "-%d" % len(inst)
                shutil.move(inst[key], n)
                inst[key] = n
        return inst[key]

    for h, r, err in results:
        e = h["entry"]
        crate = h.get("crate", spec.get("crate", "hcore"))
        o = dict(h.get("opts", {}))
        if tier == "thorough":
            o.update({k: v for k, v in h.get("thorough", {}).items()})
        sd, ru = o.get("seed", 1), bool(o.get("reuse"))
        if r is None:
            (partial if h.get("soft") and "out of time" in err else errors).append("%s: %s" % (e, err))
            continue
        if r["verdict"] == "violation":
            v = r["violation"]
            threads = len(set(t for t, _ in v["sched"])) > 1
            if threads:
                binary, sched = instrumented(crate, r, e), True
            else:
                binary, sched = built[crate][1], False
            nat = native(binary, e, [v], sched, sd, ru)
            st = nat[0] if nat else ("none", [], "")
            how = None
            if st[0] not in ("ok", "cut", "none"):
                how = "native execution of the real code: %s %s" % (st[0], st[2])
            else:
                # errors without a native symptom (e.g. reads of dead stack memory): re-execute the
                # encoded real code concretely on the counterexample
                out2 = os.path.join(outd, e + "-concrete.json")
                cmd = engine_cmd(engine, built[crate][0], h, tier, out2) + ["--concrete", ",".join(x[2] for x in v["inputs"])]
                if threads:
                    cmd += ["--sched", ",".join("%d:%d" % (t, c) for t, c in v["sched"])]
                subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
                r2 = json.load(open(out2)) if os.path.exists(out2) else {}
                if r2.get("verdict") == "violation" and v["kind"] in ("memory", "unreachable"):
                    how = "concrete execution of the compiled code (no native symptom: %s)" % st[0]
            rec = {"property": prop, "entry": e, "crate": crate, "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"], "schedule": v["sched"], "sched": v["sched"],
                   "threads": threads, "stack": v["stack"], "notes": v["notes"], "observed": v["obs"], "confirmed_by": how, "seed": sd, "reuse": ru,
                   "racy_sites": r.get("racy_sites", []), "replay_cmd": "python3 /verif/check.py --replay <this file>"}
            if how is None:
                errors.append("%s: counterexample did not reproduce natively (%s %s): %s %s inputs=%s sched=%s" % (e, st[0], st[2], v["kind"], v["msg"], v["inputs"], v["sched"]))
                continue
            if h.get("known"):
                kf = specs.known(h["known"])
                if kf and kf["property"] == prop and kf["match"] in (v["kind"] + ": " + v["msg"]):
                    known.append(kf)
                    continue
            path = os.path.join(V, "evidence", "replays", "%s-%s.json" % (prop, e))
            json.dump(rec, open(path, "w"), indent=1)
            violations.append((e, v, path))
            continue
        if r["verdict"] == "inconclusive":
            if "step limit" in r["inconclusive"] and r.get("stuck"):
                v = r["stuck"]
                threads = len(set(t for t, _ in v["sched"])) > 1
                if not threads:
                    nat = native(built[crate][1], e, [v], False, sd, ru)
                    if nat and nat[0][0] == "died" and "signal 14" in nat[0][2]:
                        path = os.path.join(V, "evidence", "replays", "%s-%s.json" % (prop, e))
                        json.dump({"property": prop, "entry": e, "crate": crate, "kind": "hang", "message": "does not terminate", "inputs": v["inputs"], "sched": v["sched"], "threads": threads, "seed": sd, "reuse": ru,
                                   "racy_sites": []}, open(path, "w"), indent=1)
                        violations.append((e, {"kind": "hang", "msg": "does not terminate", "inputs": v["inputs"]}, path))
                        continue
            if h.get("soft") and ("time limit" in r["inconclusive"] or "solver gave no answer" in r["inconclusive"]):
                # a harness beyond the core bounds: what it explored held, the rest is reported as not covered
                partial.append("%s: %s" % (e, r["inconclusive"][:300]))
                log("%s: not finished within the time limit; held on the %d paths explored" % (e, r["stats"]["paths"]))
                continue
            errors.append("%s: inconclusive: %s" % (e, r["inconclusive"]))
            continue
        if h.get("known"):
            log("note: known finding %s no longer occurs" % h["known"])
        miss = [c for c in h.get("covers", ["end"]) if c not in r["covers"]]
        if miss:
            errors.append("%s: cover points never reached: %s" % (e, miss))
            continue
        # validate the encoding: replay sampled paths against the native build
        if r["samples"] and not h.get("no_native"):
            threads = any(x["threads"] > 1 for x in r["samples"])
            binary = instrumented(crate, r, e) if threads else built[crate][1]
            nat = native(binary, e, r["samples"], threads, sd, ru)
            bad, native_bad = None, False
            if len(nat) != len(r["samples"]):
                bad = "native run gave %d of %d results" % (len(nat), len(r["samples"]))
            for s, n in zip(r["samples"], nat):
                if not threads and n[0] not in ("ok", "cut", "none") and "signal 14" not in n[2] and native(binary, e, [s], False, sd, ru)[:1] == [n]:
                    # the path holds in the encoding but its input makes the real code fail (an
                    # address-dependent error, say): that input is a counterexample all the same
                    path = os.path.join(V, "evidence", "replays", "%s-%s.json" % (prop, e))
                    json.dump({"property": prop, "entry": e, "crate": crate, "kind": "native", "message": "%s %s" % (n[0], n[2]), "inputs": s["inputs"], "sched": s["sched"], "threads": False, "seed": sd, "reuse": ru,
                               "racy_sites": []}, open(path, "w"), indent=1)
                    violations.append((e, {"kind": "native", "msg": "%s %s" % (n[0], n[2]), "inputs": s["inputs"]}, path))
                    native_bad = True
                    break
                if n[0] != "ok" or n[1] != s["obs"]:
                    bad = "native %s %s %s, engine %s, inputs %s sched %s" % (n[0], n[2], n[1][:20], s["obs"][:20], s["inputs"], s["sched"])
                    break
            if native_bad:
                continue
            if bad:
                errors.append("%s: encoding disagrees with native execution: %s" % (e, bad))
                continue
            validated += len(nat)

    # ------------------------------------------------ evidence
    ok = [(h, r) for h, r, _ in results if r is not None]
    tot = lambda f: sum(f(r) for _, r in ok)  # noqa: E731
    fns = set()
    for _, r in ok:
        fns.update(r["functions"])
    repo_fns = sorted(f for f in fns if any(c in f.split("::") for c in ("metriken", "metriken_core", "metriken_exposition", "derive_lib")))
    samples = []
    for h, r in ok:
        for s in r["samples"][:2]:
            samples.append({"harness": h["entry"], "inputs": {n: v for n, w, v in s["inputs"]}, "schedule": s["sched"] if s["threads"] > 1 else None, "observed": s["obs"][:16]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot(lambda r: r["stats"]["paths"] + r["stats"]["cut"] + r["stats"]["pruned"]),
            "transitions": tot(lambda r: r["stats"]["steps"]),
            "traces_validated_against_impl": validated,
            "samples": samples[:24],
            "explanation": "Symbolic execution of the LLVM IR compiled from /repo; states = symbolic paths explored (each stands for all input values satisfying its path condition), transitions = IR instructions executed symbolically.",
            "exhaustive_within_bounds": not errors and not violations and not partial,
            "technique": "bounded symbolic execution + SMT (QF_BV)",
            "harnesses": {("%s/seed%s%s" % (h["entry"], h["opts"].get("seed", 1), "/reuse" if h["opts"].get("reuse") else "")): {
                "verdict": r["verdict"], "paths": r["stats"]["paths"], "redundant_schedules_pruned": r["stats"]["pruned"], "infeasible": r["stats"]["cut"],
                "assertions_evaluated": r["stats"]["checks"], "assertions_per_message": r["checks"], "covers": r["covers"],
                "context_switches": r["stats"]["switches"], "scheduling_points": r["stats"]["sched_points"], "preemption_bound": h["opts"].get("preempt", 2) if r["stats"]["switches"] else None,
                "queries": r["solver"]["queries"], "query_cache_hits": r["solver"]["cache_hits"], "unsat": r["solver"]["unsat"], "sat": r["solver"]["sat"], "solver_seconds": r["solver"]["seconds"], "seconds": r["seconds"]} for h, r in ok},
            "assertions_evaluated": tot(lambda r: r["stats"]["checks"]),
            "assertions_decided_by_rewriting": tot(lambda r: r["stats"]["checks_trivial"]),
            "assertions_decided_by_solver": tot(lambda r: r["stats"]["checks_solver"]),
            "solver": "z3 (z3-new), QF_BV" + ("; unsat answers cross-checked with cvc5 (10 s per query, 600 s per harness)" if tier == "thorough" else ""),
            "queries_discharged": tot(lambda r: r["solver"]["queries"]),
            "queries_unsat": tot(lambda r: r["solver"]["unsat"]),
            "cross_checked_unsat": tot(lambda r: r["solver"]["cross_checked"]),
            "rewrites_confirmed_by_solver": tot(lambda r: r["solver"]["rewrites_confirmed"]),
            "solver_seconds": round(tot(lambda r: r["solver"]["seconds"]), 3),
            "functions_encoded_total": len(fns),
            "functions_encoded_of_repo": repo_fns[:200],
            "bounds": spec["bounds"],
            "outside": spec.get("outside", []),
        },
        "assumptions": specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if errors:
        ev["coverage"]["errors"] = errors
    if partial:
        ev["coverage"]["not_finished"] = partial
    json.dump(ev, open(ev_path, "w"), indent=1)
    for f in inst.values():
        if os.path.exists(f):
            os.remove(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for e, v, path in violations:
        log("%s: %s: %s" % (e, v["kind"], v["msg"]))
        log("   inputs: %s" % v["inputs"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in errors:
        print("ERROR", e[:3000])
    if violations:
        return 1
    if errors:
        return 2
    log("%s held on everything explored (%.0f s)" % (prop, time.time() - t0))
    return 0


def replay(path):
    rec = json.load(open(path))
    with Lock():
        engine = build_engine()
        rt = build_rt()
        ll, binary = build_harness(rec["crate"], rt)
        if rec["threads"]:
            binary = build_instrumented(engine, ll, rt, rec.get("racy_sites", []), "replay")
    nat = native(binary, rec["entry"], [rec], rec["threads"], rec["seed"], rec["reuse"])
    print(rec["property"], rec["entry"], rec["kind"], rec["message"])
    print("inputs:", rec["inputs"])
    print("native result:", nat)
    return 0 if nat and nat[0][0] == "ok" else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        with Lock():
            build_engine()
            rt = build_rt()
            for c in a[1:] or specs.CRATES:
                build_harness(c, rt)
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    try:
        return check(prop, tier, only)
    except CheckError as e:
        print("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
