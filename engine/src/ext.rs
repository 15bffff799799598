//! Operating-system, libc, intrinsic and harness functions.
use crate::exec::*;
use crate::expr::*;
use crate::ir::{Pred, Ty, Val, SLOT_BITS};
use crate::mem::*;
use std::rc::Rc;

pub enum Ret {
    Val(Val),
    /// control has been moved by the callee
    Moved,
    /// not handled: execute the definition
    Fallthrough,
}

const LIBC: &[&str] = &[
    "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "syscall",
    "sched_yield", "getrandom", "clock_gettime", "nanosleep", "clock_nanosleep", "getenv", "write", "writev", "__errno_location", "pthread_self", "pthread_key_create", "pthread_key_delete",
    "pthread_setspecific", "pthread_getspecific", "__cxa_thread_atexit_impl", "sysconf", "abort", "exit", "_exit", "_Unwind_RaiseException",
    "_Unwind_DeleteException", "getauxval", "gettid", "pause",
];

pub fn is_builtin(name: &str, _has_def: bool) -> bool {
    if name.starts_with("llvm.") || name.starts_with("sym_") {
        return true;
    }
    if LIBC.contains(&name) {
        return true;
    }
    name.ends_with("3std9panicking12default_hook")
        || name.ends_with("4core9panicking9panic_fmt")
        || name.ends_with("4core9panicking14panic_nounwind")
        || name.ends_with("4core9panicking18panic_nounwind_fmt")
        || name.ends_with("4core9panicking26panic_nounwind_nobacktrace")
        || name.ends_with("4core9panicking19panic_cannot_unwind")
        || name.ends_with("4core9panicking16panic_in_cleanup")
        || name.ends_with("5alloc18handle_alloc_error")
}

fn val(v: u128) -> R<Ret> {
    Ok(Ret::Val(Val::C(v)))
}
fn unit() -> R<Ret> {
    Ok(Ret::Val(Val::C(0)))
}

fn name_arg(en: &mut Engine, s: &mut State, p: &Val, n: &Val) -> R<String> {
    let p = en.conc64(s, p)?;
    let n = en.conc64(s, n)?;
    Ok(String::from_utf8_lossy(&en.read_conc(s, p, n)?).to_string())
}

fn location(en: &mut Engine, s: &mut State, p: &Val) -> String {
    let f = |en: &mut Engine, s: &mut State| -> R<String> {
        let p = en.conc64(s, p)?;
        let b = en.read_conc(s, p, 24)?;
        let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
        let (fp, fl) = (u(0), u(8));
        if fl > 4096 {
            return Ok("?".into());
        }
        let file = String::from_utf8_lossy(&en.read_conc(s, fp, fl)?).trim_end_matches('\0').to_string();
        Ok(format!("{}:{}", file, line))
    };
    f(en, s).unwrap_or_else(|_| "?".into())
}

fn malloc(en: &mut Engine, s: &mut State, n: u64, al: u64, zero: bool) -> R<u64> {
    let _ = &en;
    match s.mem.alloc(n, al.max(16), Kind::Heap, if zero { 0 } else { 0xA5 }) {
        Some(a) => Ok(a),
        None => unsup(format!("allocation of {} bytes", n)),
    }
}
fn free(en: &mut Engine, s: &mut State, p: u64) -> R<()> {
    if p == 0 {
        return Ok(());
    }
    match s.mem.look(p) {
        Look::Live(o) if o.kind == Kind::Heap && o.base == p => {}
        Look::Dead(_, _, _, by) => {
            let by = crate::demangle(&en.m.fns[by as usize].name);
            return bug("memory", format!("double free (first freed in {})", by));
        }
        _ => return bug("memory", "free of a pointer that is not a heap block"),
    }
    let n = match s.mem.look(p) {
        Look::Live(o) => o.size(),
        _ => 0,
    };
    en.access(s, p, n, true, false);
    let by = s.th[s.cur].frames.iter().rev().map(|f| f.f.id).find(|i| !en.m.fns[*i as usize].name.contains("7___rustc")).unwrap_or(0);
    s.mem.kill(p, by);
    Ok(())
}

fn byte(x: &(u8, E)) -> E {
    if x.1 == CONC {
        konst(8, x.0 as u128)
    } else {
        simp_byte(x.1)
    }
}

fn copy(en: &mut Engine, s: &mut State, d: &Val, a: &Val, n: &Val, overlap_ok: bool) -> R<()> {
    let n = en.conc64(s, n)?;
    if n == 0 {
        return Ok(());
    }
    let d = en.conc64(s, d)?;
    let a = en.conc64(s, a)?;
    if s.multi() {
        let src_stack = matches!(s.mem.look(a), Look::Live(o) if o.kind == Kind::Stack || o.kind == Kind::Const);
        if src_stack {
            en.plain_point_at(s, d, n, true)?;
        } else {
            en.plain_point_at(s, a, n, false)?;
        }
    }
    let v = en.read_mem(s, a, n)?;
    if !overlap_ok && a != d && a < d + n && d < a + n {
        return bug("memory", "memcpy of overlapping ranges");
    }
    en.write_mem(s, d, &v)?;
    en.access(s, a, n, false, false);
    en.access(s, d, n, true, false);
    Ok(())
}

fn next_rand(s: &mut State) -> u64 {
    s.rng ^= s.rng << 13;
    s.rng ^= s.rng >> 7;
    s.rng ^= s.rng << 17;
    s.rng.wrapping_mul(0x2545F4914F6CDD1D)
}

fn done_call(en: &mut Engine, s: &mut State, v: Val) -> R<()> {
    en.after_call(s, Some(v))
}

fn cmp_bytes(a: &[(u8, E)], b: &[(u8, E)], order: bool) -> Val {
    let mut acc = Val::C(0);
    if order {
        for i in (0..a.len()).rev() {
            if a[i].1 == CONC && b[i].1 == CONC {
                if a[i].0 != b[i].0 {
                    acc = Val::C(if a[i].0 < b[i].0 { 0xffff_ffff } else { 1 });
                }
                continue;
            }
            let (x, y) = (byte(&a[i]), byte(&b[i]));
            let rest = to_e(&acc, 32);
            acc = from_e(ite(eq(x, y), rest, ite(ult(x, y), konst(32, 0xffff_ffff), konst(32, 1))));
        }
        acc
    } else {
        let mut ne = fls();
        for i in 0..a.len() {
            if a[i].1 == CONC && b[i].1 == CONC {
                if a[i].0 != b[i].0 {
                    return Val::C(1);
                }
                continue;
            }
            ne = or(ne, not(eq(byte(&a[i]), byte(&b[i]))));
        }
        from_e(zext(ne, 32))
    }
}

pub fn call(en: &mut Engine, s: &mut State, name: &str, a: &[Val], rt: &Ty) -> R<Ret> {
    if let Some(x) = name.strip_prefix("llvm.") {
        return intrinsic(en, s, x, a, rt);
    }
    if let Some(x) = name.strip_prefix("sym_") {
        return sym(en, s, x, a);
    }
    match name {
        "malloc" => {
            let n = en.conc64(s, &a[0])?;
            let p = malloc(en, s, n, 16, false)?;
            val(p as u128)
        }
        "calloc" => {
            let n = en.conc64(s, &a[0])?;
            let k = en.conc64(s, &a[1])?;
            let p = malloc(en, s, n.saturating_mul(k), 16, true)?;
            val(p as u128)
        }
        "aligned_alloc" => {
            let al = en.conc64(s, &a[0])?;
            let n = en.conc64(s, &a[1])?;
            let p = malloc(en, s, n, al, false)?;
            val(p as u128)
        }
        "posix_memalign" => {
            let al = en.conc64(s, &a[1])?;
            let n = en.conc64(s, &a[2])?;
            let p = malloc(en, s, n, al, false)?;
            let out = a[0].clone();
            en.store(s, &out, &Ty::Ptr, &Val::C(p as u128))?;
            val(0)
        }
        "realloc" => {
            let p = en.conc64(s, &a[0])?;
            let n = en.conc64(s, &a[1])?;
            if p == 0 {
                let q = malloc(en, s, n, 16, false)?;
                return val(q as u128);
            }
            let old = match s.mem.look(p) {
                Look::Live(o) if o.kind == Kind::Heap && o.base == p => o.size(),
                _ => return bug("memory", "realloc of an invalid pointer"),
            };
            let d = en.read_mem(s, p, old.min(n))?;
            let q = malloc(en, s, n, 16, false)?;
            en.write_mem(s, q, &d)?;
            free(en, s, p)?;
            val(q as u128)
        }
        "free" => {
            let p = en.conc64(s, &a[0])?;
            free(en, s, p)?;
            unit()
        }
        "memcpy" => {
            copy(en, s, &a[0], &a[1], &a[2], false)?;
            Ok(Ret::Val(a[0].clone()))
        }
        "memmove" => {
            copy(en, s, &a[0], &a[1], &a[2], true)?;
            Ok(Ret::Val(a[0].clone()))
        }
        "memset" => {
            memset(en, s, &a[0], &a[1], &a[2])?;
            Ok(Ret::Val(a[0].clone()))
        }
        "memcmp" | "bcmp" => {
            let n = en.conc64(s, &a[2])?;
            if n == 0 {
                return val(0);
            }
            let x = en.conc64(s, &a[0])?;
            let y = en.conc64(s, &a[1])?;
            let p = en.read_mem(s, x, n)?;
            let q = en.read_mem(s, y, n)?;
            en.access(s, x, n, false, false);
            en.access(s, y, n, false, false);
            Ok(Ret::Val(cmp_bytes(&p, &q, name == "memcmp")))
        }
        "strlen" => {
            let p = en.conc64(s, &a[0])?;
            let mut n = 0u64;
            loop {
                let b = en.read_mem(s, p + n, 1)?;
                let z = if b[0].1 == CONC { b[0].0 == 0 } else { en.fork_on(s, eq(byte(&b[0]), konst(8, 0)))? };
                if z {
                    break;
                }
                n += 1;
            }
            val(n as u128)
        }
        "syscall" => {
            let nr = en.conc64(s, &a[0])?;
            match nr {
                202 => futex(en, s, a),
                318 => getrandom(en, s, &a[1], &a[2]),
                _ => unsup(format!("system call {}", nr)),
            }
        }
        "getrandom" => getrandom(en, s, &a[0], &a[1]),
        "sched_yield" => spin(en, s),
        "pause" => unit(),
        "nanosleep" => {
            let p = en.conc64(s, &a[0])?;
            pass_time(en, s, p, false)?;
            waited(en, s, 0)
        }
        "clock_nanosleep" => {
            let fl = en.conc64(s, &a[1])?;
            let p = en.conc64(s, &a[2])?;
            pass_time(en, s, p, fl & 1 == 1)?;
            waited(en, s, 0)
        }
        "clock_gettime" => {
            s.clock += 1000;
            let c = s.clock;
            let p = en.conc64(s, &a[1])?;
            en.store(s, &Val::C(p as u128), &Ty::I(64), &Val::C((c / 1_000_000_000) as u128))?;
            en.store(s, &Val::C(p as u128 + 8), &Ty::I(64), &Val::C((c % 1_000_000_000) as u128))?;
            val(0)
        }
        "getenv" => val(0),
        "write" => Ok(Ret::Val(a[2].clone())),
        "writev" => {
            let p = en.conc64(s, &a[1])?;
            let n = en.conc64(s, &a[2])?;
            let mut t = 0u64;
            for i in 0..n {
                let l = en.load(s, &Val::C((p + i * 16 + 8) as u128), &Ty::I(64))?;
                t += en.conc64(s, &l)?;
            }
            val(t as u128)
        }
        "__errno_location" => {
            if s.t().errno == 0 {
                let p = s.mem.alloc(4, 16, Kind::Tls, 0).unwrap();
                s.t().errno = p;
            }
            let p = s.t().errno;
            val(p as u128)
        }
        "pthread_self" => val(s.cur as u128 * 4096 + 0x7f00_0000_0000),
        "gettid" => val(s.cur as u128 + 100),
        "pthread_key_create" => {
            let k = s.keys;
            s.keys += 1;
            en.store(s, &a[0], &Ty::I(32), &Val::C(k as u128))?;
            val(0)
        }
        "pthread_key_delete" => val(0),
        "pthread_setspecific" => val(0),
        "pthread_getspecific" => val(0),
        "__cxa_thread_atexit_impl" => {
            let f = en.conc64(s, &a[0])?;
            let o = en.conc64(s, &a[1])?;
            s.t().dtors.push((f, o));
            val(0)
        }
        "sysconf" => val(4096),
        "getauxval" => val(0),
        "abort" => bug("abort", "the process aborted"),
        "exit" | "_exit" => bug("exit", "the process exited"),
        "_Unwind_RaiseException" => {
            let exc = en.conc64(s, &a[0])?;
            if !en.has_catch(s) {
                return bug("panic", "uncaught panic");
            }
            en.unwind(s, exc)?;
            Ok(Ret::Moved)
        }
        "_Unwind_DeleteException" => unit(),
        _ => {
            if name.ends_with("12default_hook") {
                return unit();
            }
            if name.ends_with("9panic_fmt") {
                if !en.has_catch(s) {
                    let l = location(en, s, &a[2]);
                    return bug("panic", format!("panic at {}", l));
                }
                return Ok(Ret::Fallthrough);
            }
            if name.ends_with("18handle_alloc_error") {
                return unsup("allocation failure");
            }
            bug("abort", format!("non-unwinding panic ({})", crate::demangle(name)))
        }
    }
}

fn getrandom(en: &mut Engine, s: &mut State, p: &Val, n: &Val) -> R<Ret> {
    let p = en.conc64(s, p)?;
    let n = en.conc64(s, n)?;
    let mut v = vec![];
    while (v.len() as u64) < n {
        let r = next_rand(s).to_le_bytes();
        for b in r {
            if (v.len() as u64) < n {
                v.push((b, CONC));
            }
        }
    }
    en.write_mem(s, p, &v)?;
    val(n as u128)
}

/// A spin hint. Scheduling alternatives are explored at the atomic operations of the loop; a thread
/// that keeps spinning is eventually made to give way so that unbounded spin loops stay finite.
fn spin(en: &mut Engine, s: &mut State) -> R<Ret> {
    if !s.multi() {
        return unit();
    }
    s.t().spins += 1;
    if s.t().spins > 40 {
        s.t().spins = 0;
        done_call(en, s, Val::C(0))?;
        en.yield_round_robin(s)?;
        return Ok(Ret::Moved);
    }
    unit()
}

fn memset(en: &mut Engine, s: &mut State, d: &Val, b: &Val, n: &Val) -> R<()> {
    let n = en.conc64(s, n)?;
    if n == 0 {
        return Ok(());
    }
    let d = en.conc64(s, d)?;
    en.plain_point_at(s, d, n, true)?;
    let b = match b {
        Val::C(k) => (*k as u8, CONC),
        Val::E(e) => (0, extract(*e, 0, 8)),
        _ => return unsup("memset"),
    };
    en.write_mem(s, d, &vec![b; n as usize])?;
    en.access(s, d, n, true, false);
    Ok(())
}

fn errno(s: &mut State) -> u64 {
    if s.t().errno == 0 {
        let p = s.mem.alloc(4, 16, Kind::Tls, 0).unwrap();
        s.t().errno = p;
    }
    s.t().errno
}

/// Advance the clock by (or to) the timespec at `ts`.
fn pass_time(en: &mut Engine, s: &mut State, ts: u64, absolute: bool) -> R<()> {
    let sec = en.load(s, &Val::C(ts as u128), &Ty::I(64))?;
    let sec = en.conc64(s, &sec)?;
    let ns = en.load(s, &Val::C(ts as u128 + 8), &Ty::I(64))?;
    let ns = en.conc64(s, &ns)?;
    let d = sec.saturating_mul(1_000_000_000).saturating_add(ns);
    if absolute {
        s.clock = s.clock.max(d);
    } else {
        s.clock = s.clock.saturating_add(d);
    }
    Ok(())
}

/// After a timed wait: the next scheduling point may switch without counting as a preemption;
/// a thread that keeps waiting gives way for certain.
fn waited(en: &mut Engine, s: &mut State, ret: u128) -> R<Ret> {
    if !s.multi() {
        return val(ret);
    }
    s.t().free = true;
    s.t().spins += 10;
    if s.t().spins > 40 {
        s.t().spins = 0;
        done_call(en, s, Val::C(ret))?;
        en.yield_round_robin(s)?;
        return Ok(Ret::Moved);
    }
    val(ret)
}

fn futex(en: &mut Engine, s: &mut State, a: &[Val]) -> R<Ret> {
    let addr = en.conc64(s, &a[1])?;
    let op = en.conc64(s, &a[2])? & 0x7f;
    match op {
        0 | 9 => {
            let ts = match a.get(4) {
                Some(t) => en.conc64(s, t)?,
                None => 0,
            };
            en.sched_point(s, addr, 4, true)?;
            let v = en.load(s, &Val::C(addr as u128), &Ty::I(32))?;
            en.access(s, addr, 4, false, true);
            let cur = en.conc(s, &v)? as u32;
            let want = en.conc(s, &a[3])? as u32;
            if cur != want {
                if s.t().errno == 0 {
                    let p = s.mem.alloc(4, 16, Kind::Tls, 0).unwrap();
                    s.t().errno = p;
                }
                let p = s.t().errno;
                en.store(s, &Val::C(p as u128), &Ty::I(32), &Val::C(11))?;
                return val(u64::MAX as u128);
            }
            if ts != 0 {
                // the time-out fires; other threads may run first (a free switch)
                pass_time(en, s, ts, op == 9)?;
                let p = errno(s);
                en.store(s, &Val::C(p as u128), &Ty::I(32), &Val::C(110))?;
                return waited(en, s, u64::MAX as u128);
            }
            if !s.multi() {
                return bug("deadlock", "the only thread waits for a lock that nobody can release");
            }
            let c = s.cur;
            s.th[c].st = St::Futex(addr);
            s.futexq.push((addr, c as u32));
            done_call(en, s, Val::C(0))?;
            en.must_switch(s, false)?;
            Ok(Ret::Moved)
        }
        1 | 10 => {
            let n = en.conc64(s, &a[3])? as u32 as i32;
            en.sched_point(s, addr, 4, true)?;
            en.conflict_only(s, addr, 4, true);
            let mut woken = 0;
            let mut i = 0;
            while i < s.futexq.len() && woken < n {
                if s.futexq[i].0 == addr {
                    let (_, t) = s.futexq.remove(i);
                    s.th[t as usize].st = St::Run;
                    woken += 1;
                } else {
                    i += 1;
                }
            }
            val(woken as u128)
        }
        _ => unsup(format!("futex operation {}", op)),
    }
}

// ---------------------------------------------------------------- harness interface

/// Get (or create) the symbolic value of an input. Nothing is committed.
fn input(en: &mut Engine, s: &State, name: &str, w: u16) -> R<(String, Val)> {
    let k = *s.occ.get(name).unwrap_or(&0);
    let key = if k == 0 { name.to_string() } else { format!("{}#{}", name, k) };
    if let Some(c) = &en.cfg.concrete {
        let v = match c.get(s.inputs.len()) {
            Some(v) => *v,
            None => 0,
        };
        return Ok((key, Val::C(v & mask(w))));
    }
    let e = match en.vars.get(&(key.clone(), w)) {
        Some(e) => *e,
        None => {
            let e = var(&key, w);
            en.vars.insert((key.clone(), w), e);
            e
        }
    };
    Ok((key, Val::E(e)))
}
fn commit(s: &mut State, name: &str, key: String, w: u16, v: Val) {
    *s.occ.entry(name.to_string()).or_insert(0) += 1;
    s.inputs.push(Input { name: key, w, v });
}

fn assume(en: &mut Engine, s: &mut State, c: &Val) -> R<()> {
    match c {
        Val::C(k) => {
            if k & 1 == 1 {
                Ok(())
            } else {
                Err(Ex::Cut)
            }
        }
        Val::E(e) => {
            if s.known.contains(e) {
                return Ok(());
            }
            match en.may(s, *e)? {
                Some(m) => {
                    s.model = m;
                    s.add(*e);
                    Ok(())
                }
                None => Err(Ex::Cut),
            }
        }
        _ => unsup("assume"),
    }
}

fn bool1(v: &Val) -> Val {
    match v {
        Val::C(k) => Val::C(k & 1),
        Val::E(e) => {
            if width(*e) == 1 {
                v.clone()
            } else {
                from_e(extract(*e, 0, 1))
            }
        }
        v => v.clone(),
    }
}

fn sym(en: &mut Engine, s: &mut State, name: &str, a: &[Val]) -> R<Ret> {
    match name {
        "int" => {
            let w = en.conc64(s, &a[0])? as u16;
            let n = name_arg(en, s, &a[1], &a[2])?;
            let (key, v) = input(en, s, &n, w)?;
            commit(s, &n, key, w, v.clone());
            Ok(Ret::Val(match v {
                Val::C(k) => Val::C(k),
                Val::E(e) => from_e(zext(e, 64)),
                v => v,
            }))
        }
        "choose" => {
            let k = en.conc64(s, &a[0])?;
            let n = name_arg(en, s, &a[1], &a[2])?;
            if k == 0 {
                return unsup("sym_choose(0)");
            }
            let (key, v) = input(en, s, &n, 32)?;
            let r = match &v {
                Val::C(x) => {
                    if *x as u64 >= k {
                        return Err(Ex::Cut);
                    }
                    *x
                }
                Val::E(e) => {
                    let c = from_e(ult(*e, konst(32, k as u128)));
                    assume(en, s, &c)?;
                    en.conc(s, &v)?
                }
                _ => 0,
            };
            commit(s, &n, key, 32, v);
            val(r)
        }
        "concretize" => {
            let v = en.conc(s, &a[0])?;
            val(v)
        }
        "assume" => {
            let c = bool1(&a[0]);
            assume(en, s, &c)?;
            unit()
        }
        "check" => {
            let c = bool1(&a[0]);
            en.st.checks += 1;
            let triv = matches!(c, Val::C(1));
            if triv {
                en.st.checks_trivial += 1;
            }
            if en.cfg.record_checks || !triv {
                let msg = name_arg(en, s, &a[1], &a[2])?;
                *en.st.check_msgs.entry(msg.clone()).or_insert(0) += 1;
                match c {
                    Val::C(1) => {}
                    Val::C(_) => return bug("check", msg),
                    Val::E(e) => {
                        en.st.checks_solver += 1;
                        if !s.known.contains(&e) {
                            if let Some(m) = en.may(s, not(e))? {
                                s.model = m;
                                return bug("check", msg);
                            }
                            s.known.insert(e);
                        }
                    }
                    _ => {}
                }
            }
            unit()
        }
        "cover" => {
            let n = name_arg(en, s, &a[0], &a[1])?;
            *en.st.covers.entry(n).or_insert(0) += 1;
            unit()
        }
        "observe" => {
            s.obs.push(a[0].clone());
            unit()
        }
        "note" => {
            let n = name_arg(en, s, &a[0], &a[1])?;
            s.notes.push(n);
            unit()
        }
        "spawn" => {
            let f = en.conc64(s, &a[0])?;
            let t = en.spawn(s, f, a[1].clone())?;
            val(t as u128)
        }
        "join" => {
            let t = en.conc64(s, &a[0])? as usize;
            if s.th[t].st != St::Done {
                let c = s.cur;
                s.th[c].st = St::Join(t as u32);
                en.must_switch(s, false)?;
                return Ok(Ret::Moved);
            }
            en.join_vc(s, t);
            unit()
        }
        "tid" => val(s.cur as u128),
        "live_heap" => val(s.mem.live_heap as u64 as u128),
        "engine" => val(1),
        "clock" => {
            // set the clock (nanoseconds) that the next clock_gettime calls start from
            let v = en.conc64(s, &a[0])?;
            s.clock = v;
            unit()
        }
        _ => unsup(format!("sym_{}", name)),
    }
}

// ---------------------------------------------------------------- intrinsics

fn map1(a: &Val, rt: &Ty, f: &dyn Fn(&Val, u16) -> Val) -> Val {
    match (a, rt) {
        (Val::A(v), Ty::Vec(_, t)) => Val::A(Rc::new(v.iter().map(|x| f(x, t.bits())).collect())),
        _ => f(a, rt.bits()),
    }
}
fn map2(a: &Val, b: &Val, rt: &Ty, f: &dyn Fn(E, E, u16) -> E) -> Val {
    match (a, b, rt) {
        (Val::A(v), Val::A(w), Ty::Vec(_, t)) => Val::A(Rc::new((0..v.len()).map(|i| from_e(f(to_e(&v[i], t.bits()), to_e(&w[i], t.bits()), t.bits()))).collect())),
        _ => from_e(f(to_e(a, rt.bits()), to_e(b, rt.bits()), rt.bits())),
    }
}

pub fn ctpop(e: E, w: u16) -> E {
    let mut acc = konst(w, 0);
    for i in 0..w {
        acc = add(acc, zext(extract(e, i, 1), w));
    }
    acc
}

fn intrinsic(en: &mut Engine, s: &mut State, name: &str, a: &[Val], rt: &Ty) -> R<Ret> {
    let starts = |p: &str| name.starts_with(p);
    let ok = |v: Val| -> R<Ret> { Ok(Ret::Val(v)) };
    if starts("lifetime.") || starts("dbg.") || starts("experimental.noalias.scope") || starts("donothing") || starts("invariant.") || starts("prefetch") || starts("va_") {
        return unit();
    }
    if starts("assume") {
        return unit();
    }
    if starts("memcpy") {
        copy(en, s, &a[0], &a[1], &a[2], false)?;
        return unit();
    }
    if starts("memmove") {
        copy(en, s, &a[0], &a[1], &a[2], true)?;
        return unit();
    }
    if starts("memset") {
        memset(en, s, &a[0], &a[1], &a[2])?;
        return unit();
    }
    if starts("trap") || starts("debugtrap") || starts("ubsantrap") {
        return bug("abort", "trap");
    }
    if starts("expect") || starts("launder.") || starts("strip.") || starts("ssa.copy") || starts("ptrmask") && false || starts("arithmetic.fence") {
        return ok(a[0].clone());
    }
    if starts("is.constant") {
        return val(0);
    }
    if starts("objectsize") {
        return val(u64::MAX as u128 & mask(rt.bits()));
    }
    if starts("x86.sse2.pause") {
        return spin(en, s);
    }
    if starts("threadlocal.address") {
        let g = en.conc64(s, &a[0])?;
        let id = ((g >> SLOT_BITS) - crate::ir::GLOBAL_SLOT0) as u32;
        if let Some(p) = s.t().tls.get(&id) {
            return val(*p as u128);
        }
        let init = en.m.global_init(id).map_err(Ex::Unsup)?;
        let (al, _) = en.m.global_layout(id).map_err(Ex::Unsup)?;
        let p = s.mem.alloc(init.1.len() as u64, al, Kind::Tls, 0).unwrap();
        let v: Vec<(u8, E)> = init.1.iter().map(|b| (*b, CONC)).collect();
        en.write_mem(s, p, &v)?;
        s.t().tls.insert(id, p);
        return val(p as u128);
    }
    if starts("ptrmask") {
        let m = to_e(&a[1], 64);
        return ok(from_e(and(to_e(&a[0], 64), m)));
    }
    if let Some(p) = name.find(".with.overflow.") {
        let w: u16 = match rt {
            Ty::St(f, _) => f[0].bits(),
            _ => return unsup("with.overflow"),
        };
        let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
        let signed = starts("s");
        let op = &name[1..p];
        let (r, o) = match op {
            "add" => {
                let r = add(x, y);
                let o = if signed {
                    let (sx, sy, sr) = (extract(x, w - 1, 1), extract(y, w - 1, 1), extract(r, w - 1, 1));
                    and(eq(sx, sy), not(eq(sx, sr)))
                } else {
                    ult(r, x)
                };
                (r, o)
            }
            "sub" => {
                let r = sub(x, y);
                let o = if signed {
                    let (sx, sy, sr) = (extract(x, w - 1, 1), extract(y, w - 1, 1), extract(r, w - 1, 1));
                    and(not(eq(sx, sy)), not(eq(sx, sr)))
                } else {
                    ult(x, y)
                };
                (r, o)
            }
            "mul" => {
                let r = mul(x, y);
                let o = if let (Some(p), Some(q)) = (as_const(x), as_const(y)) {
                    if signed {
                        let z = sext128(p, w).checked_mul(sext128(q, w));
                        let bad = match z {
                            Some(z) => sext128(z as u128 & mask(w), w) != z,
                            None => true,
                        };
                        konst(1, bad as u128)
                    } else {
                        let bad = match p.checked_mul(q) {
                            Some(z) => z > mask(w),
                            None => true,
                        };
                        konst(1, bad as u128)
                    }
                } else if w <= 64 {
                    if signed {
                        let z = mul(sext(x, 2 * w), sext(y, 2 * w));
                        not(eq(z, sext(r, 2 * w)))
                    } else if let Some(q) = as_const(y) {
                        // x * q overflows iff x > max / q
                        if q == 0 {
                            fls()
                        } else {
                            ult(konst(w, mask(w) / q), x)
                        }
                    } else {
                        let z = mul(zext(x, 2 * w), zext(y, 2 * w));
                        not(eq(extract(z, w, w), konst(w, 0)))
                    }
                } else {
                    return unsup("wide symbolic multiplication overflow");
                };
                (r, o)
            }
            _ => return unsup(name),
        };
        return ok(Val::A(Rc::new(vec![from_e(r), from_e(o)])));
    }
    let two = |f: &dyn Fn(E, E, u16) -> E| -> R<Ret> { Ok(Ret::Val(map2(&a[0], &a[1], rt, f))) };
    if starts("uadd.sat") {
        return two(&|x, y, w| {
            let r = add(x, y);
            ite(ult(r, x), konst(w, mask(w)), r)
        });
    }
    if starts("usub.sat") {
        return two(&|x, y, w| ite(ult(x, y), konst(w, 0), sub(x, y)));
    }
    if starts("sadd.sat") || starts("ssub.sat") {
        let sb = starts("ssub");
        return two(&|x, y, w| {
            let r = if sb { sub(x, y) } else { add(x, y) };
            let (sx, sy, sr) = (extract(x, w - 1, 1), extract(y, w - 1, 1), extract(r, w - 1, 1));
            let same = if sb { not(eq(sx, sy)) } else { eq(sx, sy) };
            let o = and(same, not(eq(sx, sr)));
            let max = mask(w) >> 1;
            ite(o, ite(sx, konst(w, max + 1), konst(w, max)), r)
        });
    }
    if starts("umin.") {
        return two(&|x, y, _| ite(ult(x, y), x, y));
    }
    if starts("umax.") {
        return two(&|x, y, _| ite(ult(x, y), y, x));
    }
    if starts("smin.") {
        return two(&|x, y, _| ite(slt(x, y), x, y));
    }
    if starts("smax.") {
        return two(&|x, y, _| ite(slt(x, y), y, x));
    }
    if starts("abs.") {
        return ok(map1(&a[0], rt, &|x, w| {
            let e = to_e(x, w);
            from_e(ite(extract(e, w - 1, 1), sub(konst(w, 0), e), e))
        }));
    }
    if starts("ucmp.") || starts("scmp.") {
        let w: u16 = name.rsplit('.').next().and_then(|t| t.strip_prefix('i')).and_then(|t| t.parse().ok()).ok_or_else(|| Ex::Unsup(name.into()))?;
        let p = if starts("ucmp") { Pred::Ult } else { Pred::Slt };
        let lt = icmp(p, &Ty::I(w), &a[0], &a[1]);
        let gt = icmp(p, &Ty::I(w), &a[1], &a[0]);
        let rw = rt.bits();
        let r = select(&gt, &Val::C(1), &Val::C(0), rt);
        let r = select(&lt, &Val::C(mask(rw)), &r, rt);
        return ok(r);
    }
    if starts("fshl.") || starts("fshr.") {
        let left = starts("fshl");
        let w = match rt {
            Ty::I(w) => *w,
            _ => return unsup(name),
        };
        let (hi, lo, sh) = (to_e(&a[0], w), to_e(&a[1], w), to_e(&a[2], w));
        let sh = urem(sh, konst(w, w as u128));
        if let Some(k) = as_const(sh) {
            let k = k as u16;
            let r = if left {
                if k == 0 {
                    hi
                } else {
                    concat(extract(hi, 0, w - k), extract(lo, w - k, k))
                }
            } else if k == 0 {
                lo
            } else {
                concat(extract(hi, 0, k), extract(lo, k, w - k))
            };
            return ok(from_e(r));
        }
        let inv = sub(konst(w, w as u128), sh);
        let z = eq(sh, konst(w, 0));
        let r = if left {
            ite(z, hi, or(shl(hi, sh), lshr(lo, inv)))
        } else {
            ite(z, lo, or(lshr(lo, sh), shl(hi, inv)))
        };
        return ok(from_e(r));
    }
    if starts("ctpop.") {
        return ok(map1(&a[0], rt, &|x, w| match x {
            Val::C(k) => Val::C((*k & mask(w)).count_ones() as u128),
            v => from_e(ctpop(to_e(v, w), w)),
        }));
    }
    if starts("ctlz.") {
        return ok(map1(&a[0], rt, &|x, w| match x {
            Val::C(k) => Val::C(((*k & mask(w)).leading_zeros() - (128 - w as u32)) as u128),
            v => {
                let e = to_e(v, w);
                let mut r = konst(w, w as u128);
                for i in 0..w {
                    r = ite(extract(e, i, 1), konst(w, (w - 1 - i) as u128), r);
                }
                from_e(r)
            }
        }));
    }
    if starts("cttz.") {
        let r = map1(&a[0], rt, &|x, w| match x {
            Val::C(k) => Val::C(if *k & mask(w) == 0 { w as u128 } else { (*k & mask(w)).trailing_zeros() as u128 }),
            v => {
                let e = to_e(v, w);
                let mut r = konst(w, w as u128);
                for i in (0..w).rev() {
                    r = ite(extract(e, i, 1), konst(w, i as u128), r);
                }
                from_e(r)
            }
        });
        // the position in a scan (of a hash group, of a text) is worth a path of its own
        if let Val::E(_) = r {
            let k = en.conc(s, &r)?;
            return ok(Val::C(k));
        }
        return ok(r);
    }
    if starts("bswap.") {
        return ok(map1(&a[0], rt, &|x, w| {
            let e = to_e(x, w);
            let mut r = extract(e, 0, 8);
            for i in 1..w / 8 {
                r = concat(r, extract(e, i * 8, 8));
            }
            from_e(r)
        }));
    }
    if starts("bitreverse.") {
        return ok(map1(&a[0], rt, &|x, w| {
            let e = to_e(x, w);
            let mut r = extract(e, 0, 1);
            for i in 1..w {
                r = concat(r, extract(e, i, 1));
            }
            from_e(r)
        }));
    }
    if let Some(op) = name.strip_prefix("vector.reduce.") {
        let w = rt.bits();
        let v = match &a[0] {
            Val::A(v) => v.clone(),
            _ => return unsup(name),
        };
        let mut acc = to_e(&v[0], w);
        for x in &v[1..] {
            let y = to_e(x, w);
            acc = if op.starts_with("add") {
                add(acc, y)
            } else if op.starts_with("mul") {
                mul(acc, y)
            } else if op.starts_with("or") {
                or(acc, y)
            } else if op.starts_with("and") {
                and(acc, y)
            } else if op.starts_with("xor") {
                xor(acc, y)
            } else if op.starts_with("umax") {
                ite(ult(acc, y), y, acc)
            } else if op.starts_with("umin") {
                ite(ult(acc, y), acc, y)
            } else if op.starts_with("smax") {
                ite(slt(acc, y), y, acc)
            } else if op.starts_with("smin") {
                ite(slt(acc, y), acc, y)
            } else {
                return unsup(name);
            };
        }
        return ok(from_e(acc));
    }
    if starts("x86.sse2.pmovmskb.128") {
        if let Val::A(v) = &a[0] {
            let mut acc: Option<E> = None;
            for x in v.iter() {
                let b = extract(to_e(x, 8), 7, 1);
                acc = Some(match acc {
                    None => b,
                    Some(r) => concat(b, r),
                });
            }
            return ok(from_e(zext(acc.unwrap(), 32)));
        }
    }
    // floating point; operations on constants fold
    if name.ends_with(".f64") || name.ends_with(".f32") {
        let w: u16 = if name.ends_with(".f64") { 64 } else { 32 };
        let sign = konst(w, 1 << (w - 1));
        let rest = konst(w, mask(w) >> 1);
        let k = match name.split('.').next().unwrap_or("") {
            "floor" => Some(FP_FLOOR),
            "ceil" => Some(FP_CEIL),
            "trunc" => Some(FP_TRUNC),
            "sqrt" => Some(FP_SQRT),
            "round" => Some(FP_RNA),
            "rint" | "nearbyint" | "roundeven" => Some(FP_RNE),
            _ => None,
        };
        if let Some(k) = k {
            let x = to_e(&a[0], w);
            return ok(from_e(fp(k, w, x, x)));
        }
        if starts("fabs.") {
            return ok(from_e(and(to_e(&a[0], w), rest)));
        }
        if starts("copysign.") {
            return ok(from_e(or(and(to_e(&a[0], w), rest), and(to_e(&a[1], w), sign))));
        }
        if starts("minnum.") || starts("maxnum.") {
            let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
            let (nx, ny) = (fp(FP_NAN, 1, x, x), fp(FP_NAN, 1, y, y));
            let lt = if starts("min") { fp(FP_LT, 1, x, y) } else { fp(FP_LT, 1, y, x) };
            return ok(from_e(ite(nx, y, ite(ny, x, ite(lt, x, y)))));
        }
    }
    if starts("fptoui.sat") || starts("fptosi.sat") {
        let w = rt.bits();
        let src32 = name.ends_with("f32");
        if let Val::E(e) = &a[0] {
            let k = if starts("fptoui") { FP_TO_U } else { FP_TO_S };
            return ok(from_e(fp(k, w, *e, *e)));
        }
        let x = en.conc64(s, &a[0])?;
        let f = if src32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
        let r = if starts("fptoui") {
            (f as u128).min(mask(w))
        } else {
            let v = f as i128;
            let hi = (mask(w) >> 1) as i128;
            (v.clamp(-hi - 1, hi) as u128) & mask(w)
        };
        return val(r);
    }
    unsup(format!("intrinsic llvm.{}", name))
}
