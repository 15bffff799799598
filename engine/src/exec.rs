//! The symbolic interpreter: states, threads, instructions.
use crate::expr::{self, *};
use crate::ir::{Callee, Cast, Clause, FOp, Func, Module, Opnd, Pred, Rmw, Ty, Val, I};
use crate::ir::{self, SLOT_BITS};
use crate::mem::*;
use crate::solver::{Sat, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub enum Ex {
    /// property violation or run-time error of the code under test
    Bug(String, String), // kind, message
    /// something outside the engine's reach: the run is inconclusive
    Unsup(String),
    /// path infeasible / assumption failed
    Cut,
    /// redundant schedule
    Prune,
    /// harness finished
    Done,
}
pub type R<T> = Result<T, Ex>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Ex::Unsup(s.into()))
}
pub fn bug<T>(k: &str, s: impl Into<String>) -> R<T> {
    Err(Ex::Bug(k.into(), s.into()))
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    /// true: return value is discarded and the thread's pending TLS destructors continue
    pub is_dtor: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Futex(u64),
    Join(u32),
    Done,
}

#[derive(Clone)]
pub struct Pend {
    pub addr: u64,
    pub len: u64,
    pub write: bool,
    pub conflict: bool,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub st: St,
    pub tls: HashMap<u32, u64>,
    pub dtors: Vec<(u64, u64)>,
    pub errno: u64,
    pub vc: Vec<u32>,
    pub rel: Vec<u32>,
    pub acq: Vec<u32>,
    pub pend: Option<Pend>,
    pub passed: bool,
    pub unwinding: Option<u64>,
    pub spins: u32,
    pub free: bool,
}

#[derive(Clone)]
pub struct Input {
    pub name: String,
    pub w: u16,
    pub v: Val,
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: HashSet<E>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub occ: HashMap<String, u32>,
    pub obs: Vec<Val>,
    pub sched: Vec<(u32, u64)>,
    pub preempts: u32,
    pub steps: u64,
    pub clock: u64,
    pub rng: u64,
    pub keys: u32,
    pub sync: HashMap<u64, Vec<u32>>,
    pub futexq: Vec<(u64, u32)>,
    pub checks: u32,
    pub notes: Vec<String>,
    pub depth: u32,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub preempt: u32,
    pub seed: u64,
    pub reuse: bool,
    pub samples: usize,
    pub trace: bool,
    pub concrete: Option<Vec<u128>>,
    pub conc_sched: Option<Vec<(u32, u64)>>,
    pub max_sym_cand: u64,
    pub record_checks: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub cut: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub checks_solver: u64,
    pub switches: u64,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    pub max_pc: usize,
    pub sched_points: u64,
    pub check_msgs: BTreeMap<String, u64>,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u16, u128)>,
    pub sched: Vec<(u32, u64)>,
    pub obs: Vec<u128>,
    pub notes: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<(String, u16, u128)>,
    pub sched: Vec<(u32, u64)>,
    pub obs: Vec<u128>,
    pub threads: usize,
}

pub struct Engine {
    pub m: Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub st: Stats,
    pub builtin: Vec<bool>,
    pub vars: HashMap<(String, u16), E>,
    pub violation: Option<Violation>,
    pub stuck: Option<Violation>,
    pub inconclusive: Option<String>,
    pub samples: Vec<Sample>,
    pub sample_tick: u64,
    pub racy: HashSet<(u32, u32, u32)>,
    pub new_racy: HashSet<(u32, u32, u32)>,
    pub sites: Vec<(u32, u32, u32)>,
    pub site_ids: HashMap<(u32, u32, u32), u32>,
}

#[inline]
pub fn c64(v: &Val) -> Option<u64> {
    match v {
        Val::C(x) => Some(*x as u64),
        _ => None,
    }
}
pub fn to_e(v: &Val, w: u16) -> E {
    match v {
        Val::C(x) => konst(w, *x),
        Val::E(e) => {
            debug_assert_eq!(width(*e), w);
            *e
        }
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
pub fn from_e(e: E) -> Val {
    match as_const(e) {
        Some(k) => Val::C(k),
        None => Val::E(e),
    }
}

impl State {
    #[inline]
    pub fn t(&mut self) -> &mut Thread {
        let c = self.cur;
        &mut self.th[c]
    }
    #[inline]
    pub fn fr(&mut self) -> &mut Frame {
        let c = self.cur;
        self.th[c].frames.last_mut().unwrap()
    }
    pub fn multi(&self) -> bool {
        self.th.len() > 1
    }
    pub fn add(&mut self, c: E) {
        if as_const(c) == Some(1) {
            return;
        }
        if self.known.insert(c) {
            self.pc.push(c);
            // split conjunctions for better slicing
            let x = n(c);
            if x.op == expr::Op::And && x.w == 1 {
                self.known.insert(x.a);
                self.known.insert(x.b);
            }
        }
    }
}

#[inline]
pub fn ev(f: &Frame, o: &Opnd) -> Val {
    match o {
        Opnd::R(r) => f.regs[*r as usize].clone(),
        Opnd::V(v) => v.clone(),
    }
}

impl Engine {
    pub fn new(m: Module, solver: Solver, cfg: Cfg) -> Engine {
        let builtin = m.fns.iter().map(|f| crate::ext::is_builtin(&f.name, f.def.is_some())).collect();
        Engine {
            m,
            solver,
            work: vec![],
            cfg,
            st: Stats::default(),
            builtin,
            vars: HashMap::new(),
            violation: None,
            stuck: None,
            inconclusive: None,
            samples: vec![],
            sample_tick: 0,
            racy: HashSet::new(),
            new_racy: HashSet::new(),
            sites: vec![],
            site_ids: HashMap::new(),
        }
    }

    pub fn initial(&self, entry: &str) -> Result<State, String> {
        let id = self.m.fn_id(entry)?;
        let f = self.m.func(id)?;
        let mut mem = Mem::new(self.m.first_free_slot());
        mem.reuse = self.cfg.reuse;
        let fr = Frame { regs: vec![Val::C(0); f.nregs as usize], f, bb: 0, ip: 0, allocas: vec![], is_dtor: false };
        let t = Thread {
            frames: vec![fr],
            st: St::Run,
            tls: HashMap::new(),
            dtors: vec![],
            errno: 0,
            vc: vec![1],
            rel: vec![],
            acq: vec![],
            pend: None,
            passed: false,
            unwinding: None,
            spins: 0,
            free: false,
        };
        Ok(State {
            th: vec![t],
            cur: 0,
            mem,
            pc: vec![],
            known: HashSet::new(),
            model: Rc::new(Model::new()),
            inputs: vec![],
            occ: HashMap::new(),
            obs: vec![],
            sched: vec![(0, 0)],
            preempts: 0,
            steps: 0,
            clock: 1_700_000_000_000_000_000,
            rng: self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            keys: 1,
            sync: HashMap::new(),
            futexq: vec![],
            checks: 0,
            notes: vec![],
            depth: 0,
        })
    }

    /// Explore every path from `entry`; returns on completion, first violation, or a limit.
    pub fn explore(&mut self, entry: &str) -> Result<(), String> {
        for _round in 0..8 {
            self.new_racy.clear();
            self.samples.clear();
            self.st = Stats { funcs: std::mem::take(&mut self.st.funcs), ..Default::default() };
            let s0 = self.initial(entry)?;
            self.work.clear();
            self.work.push(s0);
            while let Some(s) = self.work.pop() {
                self.run(s);
                if self.violation.is_some() || self.inconclusive.is_some() {
                    return Ok(());
                }
                if self.st.paths + self.st.pruned + self.st.cut > self.cfg.max_paths {
                    self.inconclusive = Some("path limit reached".into());
                    return Ok(());
                }
            }
            let fresh: Vec<_> = self.new_racy.difference(&self.racy).copied().collect();
            if fresh.is_empty() {
                return Ok(());
            }
            self.racy.extend(fresh);
        }
        self.inconclusive = Some("scheduling points did not converge".into());
        Ok(())
    }

    pub fn eval_val(&self, v: &Val, m: &Model) -> u128 {
        match v {
            Val::C(x) => *x,
            Val::E(e) => eval(*e, m),
            Val::A(_) => 0,
        }
    }
    fn input_values(&self, s: &State) -> Vec<(String, u16, u128)> {
        s.inputs.iter().map(|i| (i.name.clone(), i.w, self.eval_val(&i.v, &s.model))).collect()
    }

    fn run(&mut self, mut s: State) {
        let steps0 = s.steps;
        let r = self.run_inner(&mut s);
        self.st.steps += s.steps - steps0;
        if s.pc.len() > self.st.max_pc {
            self.st.max_pc = s.pc.len();
        }
        match r {
            Ok(()) => unreachable!(),
            Err(Ex::Done) => {
                self.st.paths += 1;
                // keep a spread-out sample of completed paths
                self.sample_tick += 1;
                let want = self.cfg.samples;
                if want > 0 {
                    // inputs the path does not constrain get varied values
                    let mut used: HashSet<u32> = HashSet::new();
                    for c in &s.pc {
                        used.extend(vars_of(*c).iter());
                    }
                    let mut m: Model = (*s.model).clone();
                    for i in &s.inputs {
                        if let Val::E(e) = &i.v {
                            for v in vars_of(*e).iter() {
                                if !used.contains(v) {
                                    let h = (self.sample_tick ^ ((*v as u64) << 32)).wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
                                    let h = (h ^ (h >> 29)).wrapping_mul(0x94D049BB133111EB);
                                    let x = match h >> 61 {
                                        0 => 0u128,
                                        1 => u128::MAX,
                                        2 => (h & 0xff) as u128,
                                        3 => 1u128 << (i.w - 1),
                                        _ => (h ^ (h << 7)) as u128,
                                    };
                                    m.insert(*v, x & mask(i.w));
                                }
                            }
                        }
                    }
                    let m = Rc::new(m);
                    s.model = m;
                    let sm = Sample {
                        inputs: self.input_values(&s),
                        sched: s.sched.clone(),
                        obs: s.obs.iter().map(|v| self.eval_val(v, &s.model)).collect(),
                        threads: s.th.len(),
                    };
                    if self.samples.len() < want {
                        self.samples.push(sm);
                    } else {
                        // reservoir with a deterministic generator
                        let h = self.sample_tick.wrapping_mul(0x9E3779B97F4A7C15) >> 20;
                        let k = (h % self.sample_tick) as usize;
                        if k < want {
                            self.samples[k] = sm;
                        }
                    }
                }
            }
            Err(Ex::Cut) => self.st.cut += 1,
            Err(Ex::Prune) => self.st.pruned += 1,
            Err(Ex::Bug(kind, msg)) => {
                let v = Violation {
                    kind,
                    msg,
                    stack: self.stack(&s),
                    inputs: self.input_values(&s),
                    sched: s.sched.clone(),
                    obs: s.obs.iter().map(|v| self.eval_val(v, &s.model)).collect(),
                    notes: s.notes.clone(),
                };
                self.violation = Some(v);
            }
            Err(Ex::Unsup(m)) => {
                if m.starts_with("step limit") {
                    self.stuck = Some(Violation {
                        kind: "hang".into(),
                        msg: "does not terminate".into(),
                        stack: self.stack(&s),
                        inputs: self.input_values(&s),
                        sched: s.sched.clone(),
                        obs: vec![],
                        notes: s.notes.clone(),
                    });
                }
                self.inconclusive = Some(format!("{} (stack: {})", m, self.stack(&s).join(" < ")));
            }
        }
    }

    pub fn stack(&self, s: &State) -> Vec<String> {
        s.th[s.cur].frames.iter().rev().take(24).map(|f| crate::demangle(&f.f.name)).collect()
    }

    // ------------------------------------------------------------ solver-driven decisions

    /// Decide `c` in this state; if both outcomes are possible the other one is queued
    /// (re-executing the current instruction).
    pub fn fork_on(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        if s.known.contains(&c) {
            return Ok(true);
        }
        let nc = not(c);
        if s.known.contains(&nc) {
            return Ok(false);
        }
        let mv = eval(c, &s.model) == 1;
        let (take, other) = if mv { (c, nc) } else { (nc, c) };
        match self.solver.check(&s.pc, &[other], &s.model) {
            Sat::Unsat => {
                s.known.insert(take);
                Ok(mv)
            }
            Sat::Sat(m2) => {
                let mut s2 = s.clone();
                s2.add(other);
                s2.model = m2;
                s2.depth += 1;
                self.st.forks += 1;
                self.work.push(s2);
                s.add(take);
                Ok(mv)
            }
            Sat::Unknown => unsup("solver gave no answer in time"),
        }
    }
    /// Is `c` possibly true?
    pub fn may(&mut self, s: &State, c: E) -> R<Option<Rc<Model>>> {
        if let Some(k) = as_const(c) {
            return Ok(if k == 1 { Some(s.model.clone()) } else { None });
        }
        if eval(c, &s.model) == 1 {
            return Ok(Some(s.model.clone()));
        }
        match self.solver.check(&s.pc, &[c], &s.model) {
            Sat::Unsat => Ok(None),
            Sat::Sat(m) => Ok(Some(m)),
            Sat::Unknown => unsup("solver gave no answer in time"),
        }
    }
    /// Concretise a value by forking over its feasible values.
    pub fn conc(&mut self, s: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::E(e) => {
                let k = eval(*e, &s.model);
                let c = eq(*e, konst(width(*e), k));
                let r = self.fork_on(s, c)?;
                debug_assert!(r);
                Ok(k)
            }
            Val::A(_) => unsup("aggregate as integer"),
        }
    }
    pub fn conc64(&mut self, s: &mut State, v: &Val) -> R<u64> {
        Ok(self.conc(s, v)? as u64)
    }

    // ------------------------------------------------------------ memory

    fn mem_bug<T>(&self, s: &State, addr: u64, n: u64, w: bool) -> R<T> {
        let what = if w { "write" } else { "read" };
        match s.mem.look(addr) {
            Look::Dead(b, z, k, by) => bug(
                "memory",
                format!(
                    "{} of {} bytes through a dangling pointer: offset {} of a {:?} object of {} bytes that no longer exists (ended in {})",
                    what,
                    n,
                    addr as i64 - b as i64,
                    k,
                    z,
                    crate::demangle(&self.m.fns[by as usize].name)
                ),
            ),
            Look::Live(o) => bug(
                "memory",
                format!("{} of {} bytes out of bounds: offset {} of a {:?} object of {} bytes", what, n, addr as i64 - o.base as i64, o.kind, o.size()),
            ),
            Look::None => bug("memory", format!("{} of {} bytes at invalid address {:#x}", what, n, addr)),
        }
    }
    /// Address must be a live object containing [addr, addr+n).
    pub fn check_conc(&mut self, s: &mut State, addr: u64, n: u64, w: bool) -> R<u64> {
        match s.mem.look(addr) {
            Look::Live(o) => {
                if addr >= o.base && addr + n <= o.base + o.size() {
                    if w && o.kind == Kind::Const {
                        return bug("memory", "write to constant memory");
                    }
                    return Ok(o.base);
                }
            }
            Look::None => {
                if materialize(&mut s.mem, &self.m, addr).map_err(Ex::Unsup)? {
                    return self.check_conc(s, addr, n, w);
                }
            }
            _ => {}
        }
        self.mem_bug(s, addr, n, w)
    }

    /// Resolve a possibly symbolic address to an object; for symbolic ones also return the
    /// candidate offsets within it.
    fn resolve(&mut self, s: &mut State, a: &Val, n: u64, w: bool) -> R<(u64, Option<(E, Vec<u64>)>)> {
        match a {
            Val::C(x) => {
                self.check_conc(s, *x as u64, n, w)?;
                Ok((*x as u64, None))
            }
            Val::E(e) => {
                let av = eval(*e, &s.model) as u64;
                let base = self.check_conc(s, av, n, w)?;
                let size = match s.mem.look(av) {
                    Look::Live(o) => o.size(),
                    _ => unreachable!(),
                };
                let off = sub(*e, konst(64, base as u128));
                let inb = ule(off, konst(64, (size - n) as u128));
                if !self.fork_on(s, inb)? {
                    return unsup("address resolution");
                }
                let lz = low_zeros(off).min(4);
                let stride = 1u64 << lz;
                let cnt = (size - n) / stride + 1;
                if cnt == 1 {
                    return Ok((base, None));
                }
                if cnt > self.cfg.max_sym_cand {
                    let k = self.conc64(s, a)?;
                    return Ok((k, None));
                }
                Ok((base, Some((off, (0..cnt).map(|i| i * stride).collect()))))
            }
            Val::A(_) => unsup("aggregate address"),
        }
    }

    fn obj<'a>(&self, s: &'a State, addr: u64) -> &'a Rc<Obj> {
        match s.mem.look(addr) {
            Look::Live(o) => o,
            _ => unreachable!(),
        }
    }

    fn load_scalar(&mut self, s: &mut State, a: &Val, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        let bits = ty.bits();
        let (addr, sym) = self.resolve(s, a, n, false)?;
        let o = self.obj(s, addr).clone();
        let fix = |r: Result<u128, E>| -> Val {
            match r {
                Ok(k) => Val::C(k & mask(bits)),
                Err(e) => {
                    if width(e) > bits {
                        from_e(extract(e, 0, bits))
                    } else {
                        from_e(e)
                    }
                }
            }
        };
        match sym {
            None => Ok(fix(rd_bytes(&o, (addr - o.base) as usize, n as usize))),
            Some((off, cands)) => {
                let mut acc: Option<E> = None;
                for k in cands.iter().rev() {
                    let v = fix(rd_bytes(&o, *k as usize, n as usize));
                    let v = to_e(&v, bits);
                    acc = Some(match acc {
                        None => v,
                        Some(r) => ite(eq(off, konst(64, *k as u128)), v, r),
                    });
                }
                Ok(from_e(acc.unwrap()))
            }
        }
    }
    fn store_scalar(&mut self, s: &mut State, a: &Val, ty: &Ty, v: &Val) -> R<()> {
        let n = ty.store_size();
        let bits = ty.bits();
        let (addr, sym) = self.resolve(s, a, n, true)?;
        match sym {
            None => {
                let o = s.mem.obj_mut(addr).unwrap();
                let off = (addr - o.base) as usize;
                match v {
                    Val::C(k) => wr_conc(o, off, n as usize, *k & mask(bits)),
                    Val::E(e) => wr_expr(o, off, n as usize, zext(*e, n as u16 * 8)),
                    Val::A(_) => return unsup("aggregate store"),
                }
            }
            Some((off, cands)) => {
                let w8 = n as u16 * 8;
                let nv = zext(to_e(v, bits), w8);
                let o = s.mem.obj_mut(addr).unwrap();
                let old: Vec<E> = cands
                    .iter()
                    .map(|k| match rd_bytes(o, *k as usize, n as usize) {
                        Ok(c) => konst(w8, c),
                        Err(e) => e,
                    })
                    .collect();
                // overlapping candidates (stride < n) need byte granularity; only aligned strides are merged here
                if cands.len() > 1 && cands[1] - cands[0] < n {
                    let k = self.conc64(s, a)?;
                    return self.store_scalar(s, &Val::C(k as u128), ty, v);
                }
                for (k, ov) in cands.iter().zip(old) {
                    let e = ite(eq(off, konst(64, *k as u128)), nv, ov);
                    wr_expr(o, *k as usize, n as usize, e);
                }
            }
        }
        Ok(())
    }

    pub fn load(&mut self, s: &mut State, a: &Val, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            return self.load_scalar(s, a, ty);
        }
        match ty {
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => {
                let mut v = vec![];
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        let w = Ty::I(ty.count() as u16 * t.bits());
                        let x = self.load_scalar(s, a, &w)?;
                        return bitcast(&w, &x, ty);
                    }
                }
                for i in 0..ty.count() {
                    let t = ty.elem(i);
                    let o = ty.field_offset(i);
                    let p = self.ptr_add(a, o);
                    v.push(self.load(s, &p, &t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup(format!("load of {:?}", ty)),
        }
    }
    pub fn store(&mut self, s: &mut State, a: &Val, ty: &Ty, v: &Val) -> R<()> {
        if ty.is_scalar() {
            return self.store_scalar(s, a, ty, v);
        }
        match (ty, v) {
            (Ty::Arr(..) | Ty::St(..) | Ty::Vec(..), Val::A(vs)) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        let w = Ty::I(ty.count() as u16 * t.bits());
                        let x = bitcast(ty, v, &w)?;
                        return self.store_scalar(s, a, &w, &x);
                    }
                }
                for i in 0..ty.count() {
                    let t = ty.elem(i);
                    let o = ty.field_offset(i);
                    let p = self.ptr_add(a, o);
                    self.store(s, &p, &t, &vs[i])?;
                }
                Ok(())
            }
            _ => unsup(format!("store of {:?}", ty)),
        }
    }
    pub fn ptr_add(&self, a: &Val, o: u64) -> Val {
        match a {
            Val::C(x) => Val::C((*x as u64).wrapping_add(o) as u128),
            Val::E(e) => from_e(add(*e, konst(64, o as u128))),
            v => v.clone(),
        }
    }

    pub fn read_mem(&mut self, s: &mut State, addr: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.check_conc(s, addr, n, false)?;
        let o = self.obj(s, addr);
        let off = (addr - o.base) as usize;
        Ok((0..n as usize).map(|i| (o.data[off + i], o.sym.as_ref().map(|x| x[off + i]).unwrap_or(CONC))).collect())
    }
    pub fn read_conc(&mut self, s: &mut State, addr: u64, n: u64) -> R<Vec<u8>> {
        let v = self.read_mem(s, addr, n)?;
        let mut out = vec![];
        for (b, e) in v {
            if e == CONC {
                out.push(b)
            } else {
                out.push(eval(e, &s.model) as u8)
            }
        }
        Ok(out)
    }
    pub fn write_mem(&mut self, s: &mut State, addr: u64, v: &[(u8, E)]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        self.check_conc(s, addr, v.len() as u64, true)?;
        let o = s.mem.obj_mut(addr).unwrap();
        let off = (addr - o.base) as usize;
        for (i, (b, e)) in v.iter().enumerate() {
            if *e == CONC {
                o.data[off + i] = *b;
                if let Some(sy) = &mut o.sym {
                    sy[off + i] = CONC;
                }
            } else {
                wr_byte_e(o, off + i, *e);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ threads

    fn site(&mut self, s: &State) -> u32 {
        let f = s.th[s.cur].frames.last().unwrap();
        let k = (f.f.id, f.bb, f.ip);
        if let Some(i) = self.site_ids.get(&k) {
            return *i;
        }
        let i = self.sites.len() as u32;
        self.sites.push(k);
        self.site_ids.insert(k, i);
        i
    }

    /// Called before a visible operation. Queues the alternatives in which another thread runs first.
    pub fn sched_point(&mut self, s: &mut State, addr: u64, len: u64, write: bool) -> R<()> {
        if !s.multi() {
            return Ok(());
        }
        if s.t().passed {
            s.t().passed = false;
        } else {
            if let Some(sc) = &self.cfg.conc_sched {
                // replay of a given schedule
                let k = s.sched.len() - 1;
                if let Some(&(_, cnt)) = sc.get(k) {
                    if s.sched[k].1 >= cnt && k + 1 < sc.len() {
                        let t = sc[k + 1].0 as usize;
                        if t != s.cur && t < s.th.len() && s.th[t].st == St::Run {
                            self.switch_to(s, t)?;
                            return Err(Ex::Unsup("\0switched".into()));
                        }
                    }
                }
            } else if s.preempts < self.cfg.preempt || s.t().free {
                let free = std::mem::replace(&mut s.t().free, false);
                for t in 0..s.th.len() {
                    if t != s.cur && s.th[t].st == St::Run {
                        let mut s2 = s.clone();
                        if !free {
                            s2.preempts += 1;
                        }
                        let c = s2.cur;
                        s2.th[c].pend = Some(Pend { addr, len, write, conflict: false });
                        match self.switch_to(&mut s2, t) {
                            Ok(()) => self.work.push(s2),
                            Err(Ex::Prune) => self.st.pruned += 1,
                            Err(e) => return Err(e),
                        }
                    }
                }
            }
            self.st.sched_points += 1;
        }
        let k = s.sched.len() - 1;
        s.sched[k].1 += 1;
        Ok(())
    }
    pub fn switch_to(&mut self, s: &mut State, t: usize) -> R<()> {
        self.st.switches += 1;
        s.cur = t;
        s.sched.push((t as u32, 0));
        if let Some(p) = s.th[t].pend.take() {
            if !p.conflict && self.cfg.conc_sched.is_none() {
                return Err(Ex::Prune);
            }
            s.th[t].passed = true;
        }
        Ok(())
    }
    /// The current thread cannot go on (or gives way): continue with some other thread.
    pub fn must_switch(&mut self, s: &mut State, yielding: bool) -> R<()> {
        let cands: Vec<usize> = (0..s.th.len()).filter(|t| *t != s.cur && s.th[*t].st == St::Run).collect();
        if cands.is_empty() {
            if yielding {
                return Ok(());
            }
            let desc: Vec<String> = s
                .th
                .iter()
                .enumerate()
                .map(|(i, t)| format!("thread {}: {:?} in {}", i, t.st, t.frames.iter().rev().map(|f| crate::demangle(&f.f.name)).find(|n| !n.starts_with("core::") && !n.starts_with("std::") && !n.starts_with("parking_lot")).unwrap_or_default()))
                .collect();
            return bug("deadlock", format!("no thread can make progress: {}", desc.join("; ")));
        }
        if let Some(sc) = &self.cfg.conc_sched {
            let k = s.sched.len();
            let t = sc.get(k).map(|x| x.0 as usize).filter(|t| cands.contains(t)).unwrap_or(cands[0]);
            return self.switch_to(s, t);
        }
        for &t in &cands[1..] {
            let mut s2 = s.clone();
            match self.switch_to(&mut s2, t) {
                Ok(()) => self.work.push(s2),
                Err(Ex::Prune) => self.st.pruned += 1,
                Err(e) => return Err(e),
            }
        }
        self.switch_to(s, cands[0])
    }

    /// A thread that spins without end gives way to the next one (fairness; no alternatives).
    pub fn yield_round_robin(&mut self, s: &mut State) -> R<()> {
        let n = s.th.len();
        for k in 1..n {
            let t = (s.cur + k) % n;
            if s.th[t].st == St::Run {
                let c = s.cur;
                s.th[c].pend = None;
                return self.switch_to_keep(s, t);
            }
        }
        Ok(())
    }
    fn switch_to_keep(&mut self, s: &mut State, t: usize) -> R<()> {
        if let Some(p) = &mut s.th[t].pend {
            p.conflict = true;
        }
        self.switch_to(s, t)
    }
    pub fn conflict_only(&mut self, s: &mut State, addr: u64, n: u64, write: bool) {
        let cur = s.cur;
        for (i, t) in s.th.iter_mut().enumerate() {
            if i != cur {
                if let Some(p) = &mut t.pend {
                    if (write || p.write) && addr < p.addr + p.len && p.addr < addr + n {
                        p.conflict = true;
                    }
                }
            }
        }
    }

    /// Record an access: conflicts with preempted threads, and happens-before races.
    pub fn access(&mut self, s: &mut State, addr: u64, n: u64, write: bool, atomic: bool) {
        if !s.multi() || n == 0 {
            return;
        }
        let cur = s.cur;
        for (i, t) in s.th.iter_mut().enumerate() {
            if i != cur {
                if let Some(p) = &mut t.pend {
                    if (write || p.write) && addr < p.addr + p.len && p.addr < addr + n {
                        p.conflict = true;
                    }
                }
            }
        }
        let site = self.site(s);
        let vc = s.th[cur].vc.clone();
        let my = vc[cur];
        let mut hits: Vec<u32> = vec![];
        // skip objects that are never shared: constants
        match s.mem.look(addr) {
            Look::Live(o) if o.kind != Kind::Const => {}
            _ => return,
        }
        if let Some(o) = s.mem.obj_mut(addr) {
            let off = (addr - o.base) as usize;
            let len = o.data.len();
            let sh = o.shadow.get_or_insert_with(|| vec![Shadow::default(); len]);
            for b in &mut sh[off..(off + n as usize).min(len)] {
                let unordered = |t: u8, c: u32| c != 0 && t as usize != cur && c > *vc.get(t as usize).unwrap_or(&0);
                if unordered(b.wt, b.wc) && !(atomic && b.wa) {
                    hits.push(b.ws);
                    hits.push(site);
                }
                if write {
                    if unordered(b.rt, b.rc) && !(atomic && b.ra) {
                        hits.push(b.rs);
                        hits.push(site);
                    }
                    if unordered(b.rt2, b.rc2) && !(atomic && b.ra2) {
                        hits.push(b.rs2);
                        hits.push(site);
                    }
                    b.wt = cur as u8;
                    b.wc = my;
                    b.ws = site;
                    b.wa = atomic;
                } else {
                    if b.rc != 0 && b.rt as usize != cur {
                        b.rt2 = b.rt;
                        b.rc2 = b.rc;
                        b.rs2 = b.rs;
                        b.ra2 = b.ra;
                    }
                    b.rt = cur as u8;
                    b.rc = my;
                    b.rs = site;
                    b.ra = atomic;
                }
            }
        }
        for h in hits {
            let k = self.sites[h as usize];
            self.new_racy.insert(k);
        }
    }
    fn plain_point(&mut self, s: &mut State, a: &Val, n: u64, write: bool) -> R<()> {
        if !s.multi() {
            return Ok(());
        }
        let f = s.th[s.cur].frames.last().unwrap();
        let k = (f.f.id, f.bb, f.ip);
        if self.racy.contains(&k) {
            let a = self.conc64(s, a)?;
            self.sched_point(s, a, n, write)?;
        }
        Ok(())
    }
    pub fn plain_access(&mut self, s: &mut State, a: &Val, n: u64, write: bool) {
        if let Val::C(x) = a {
            self.access(s, *x as u64, n, write, false);
        }
    }
    pub fn plain_point_at(&mut self, s: &mut State, a: u64, n: u64, write: bool) -> R<()> {
        self.plain_point(s, &Val::C(a as u128), n, write)
    }

    fn join(a: &mut Vec<u32>, b: &[u32]) {
        if a.len() < b.len() {
            a.resize(b.len(), 0);
        }
        for i in 0..b.len() {
            if b[i] > a[i] {
                a[i] = b[i];
            }
        }
    }
    fn sync_load(&mut self, s: &mut State, addr: u64, o: ir::Ord) {
        if !s.multi() {
            return;
        }
        if let Some(l) = s.sync.get(&addr).cloned() {
            let t = s.t();
            if o.acq() {
                Self::join(&mut t.vc, &l);
            } else {
                Self::join(&mut t.acq, &l);
            }
        }
    }
    fn sync_store(&mut self, s: &mut State, addr: u64, o: ir::Ord, rmw: bool) {
        if !s.multi() {
            return;
        }
        let cur = s.cur;
        let v = if o.rel() { s.th[cur].vc.clone() } else { s.th[cur].rel.clone() };
        if rmw {
            let l = s.sync.entry(addr).or_default();
            Self::join(l, &v);
        } else {
            s.sync.insert(addr, v);
        }
        if o.rel() {
            s.th[cur].vc[cur] += 1;
        }
    }
    fn sync_fence(&mut self, s: &mut State, o: ir::Ord) {
        if !s.multi() {
            return;
        }
        let cur = s.cur;
        let t = &mut s.th[cur];
        if o.acq() {
            let a = t.acq.clone();
            Self::join(&mut t.vc, &a);
        }
        if o.rel() {
            t.rel = t.vc.clone();
            t.vc[cur] += 1;
        }
    }
    pub fn spawn(&mut self, s: &mut State, f: u64, arg: Val) -> R<u32> {
        let id = self.fn_at(f)?;
        let func = self.m.func(id).map_err(Ex::Unsup)?;
        let mut regs = vec![Val::C(0); func.nregs as usize];
        if !regs.is_empty() {
            regs[0] = arg;
        }
        let tid = s.th.len();
        let cur = s.cur;
        let mut vc = s.th[cur].vc.clone();
        vc.resize(tid + 1, 0);
        vc[tid] = 1;
        for t in s.th.iter_mut() {
            t.vc.resize(tid + 1, 0);
        }
        s.th[cur].vc[cur] += 1;
        s.th.push(Thread {
            frames: vec![Frame { f: func, bb: 0, ip: 0, regs, allocas: vec![], is_dtor: false }],
            st: St::Run,
            tls: HashMap::new(),
            dtors: vec![],
            errno: 0,
            vc,
            rel: vec![],
            acq: vec![],
            pend: None,
            passed: false,
            unwinding: None,
            spins: 0,
            free: false,
        });
        Ok(tid as u32)
    }
    pub fn join_vc(&mut self, s: &mut State, t: usize) {
        let v = s.th[t].vc.clone();
        Self::join(&mut s.t().vc, &v);
    }

    pub fn fn_at(&self, a: u64) -> R<u32> {
        if a >= ir::FN_BASE && (a - ir::FN_BASE) % 16 == 0 && ((a - ir::FN_BASE) / 16) < self.m.fns.len() as u64 {
            return Ok(((a - ir::FN_BASE) / 16) as u32);
        }
        bug("memory", format!("call through invalid function pointer {:#x}", a))
    }

    // ------------------------------------------------------------ main loop

    fn run_inner(&mut self, s: &mut State) -> R<()> {
        let mut tick = 0u32;
        loop {
            tick += 1;
            s.steps += 1;
            if tick & 0x3fff == 0 {
                if Instant::now() > self.cfg.deadline {
                    return unsup("time limit reached");
                }
            }
            if s.steps > self.cfg.max_steps {
                return unsup("step limit of a path reached");
            }
            match self.step(s) {
                Ok(()) => {}
                Err(Ex::Unsup(m)) if m == "\0switched" => {}
                Err(e) => return Err(e),
            }
        }
    }

    #[inline]
    fn set(&mut self, s: &mut State, dst: u32, v: Val) {
        let f = s.fr();
        if dst != u32::MAX {
            f.regs[dst as usize] = v;
        }
        f.ip += 1;
    }

    pub fn goto(&mut self, s: &mut State, bb: u32) -> R<()> {
        let f = s.fr();
        let prev = f.bb;
        let func = f.f.clone();
        let b = &func.blocks[bb as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (dst, inc) in &b.phis {
                let mut found = None;
                for (p, o) in inc {
                    if *p == prev {
                        found = Some(ev(f, o));
                        break;
                    }
                }
                match found {
                    Some(v) => vals.push((*dst, v)),
                    None => return unsup("phi without matching predecessor"),
                }
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        f.bb = bb;
        f.ip = 0;
        Ok(())
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let cur = s.cur;
        let f = match s.th[cur].frames.last() {
            Some(f) => f,
            None => return self.thread_end(s),
        };
        let func = f.f.clone();
        let inst = &func.blocks[f.bb as usize].insts[f.ip as usize];
        let dst = inst.dst;
        match &inst.i {
            I::Bin(op, ty, a, b) => {
                let (x, y) = (ev(f, a), ev(f, b));
                let v = self.binop(s, *op, ty, &x, &y)?;
                self.set(s, dst, v);
            }
            I::ICmp(p, ty, a, b) => {
                let (x, y) = (ev(f, a), ev(f, b));
                let v = icmp(*p, ty, &x, &y);
                self.set(s, dst, v);
            }
            I::Gep(b, off, dynv) => {
                let mut base = ev(f, b);
                let mut coff = *off;
                let mut sym: Option<E> = None;
                for (o, w, scale) in dynv {
                    match ev(f, o) {
                        Val::C(k) => coff += sext128(k, *w) * *scale as i128,
                        Val::E(e) => {
                            let e = if *w < 64 { sext(e, 64) } else { extract(e, 0, 64) };
                            let t = mul(e, konst(64, *scale as u128));
                            sym = Some(match sym {
                                None => t,
                                Some(x) => add(x, t),
                            });
                        }
                        _ => return unsup("gep index"),
                    }
                }
                base = match (&base, sym) {
                    (Val::C(x), None) => Val::C((*x as i128).wrapping_add(coff) as u64 as u128),
                    (b, sy) => {
                        let mut e = add(to_e(b, 64), konst(64, coff as u128));
                        if let Some(t) = sy {
                            e = add(e, t);
                        }
                        from_e(e)
                    }
                };
                self.set(s, dst, base);
            }
            I::Load(ty, p, ord) => {
                let a = ev(f, p);
                let n = ty.store_size();
                if ord.atomic() {
                    let addr = if s.multi() { self.conc64(s, &a)? } else { 0 };
                    self.sched_point(s, addr, n, false)?;
                    let v = self.load(s, &a, ty)?;
                    self.access(s, addr, n, false, true);
                    self.sync_load(s, addr, *ord);
                    self.set(s, dst, v);
                } else {
                    self.plain_point(s, &a, n, false)?;
                    let v = self.load(s, &a, ty)?;
                    self.plain_access(s, &a, n, false);
                    self.set(s, dst, v);
                }
            }
            I::Store(ty, v, p, ord) => {
                let a = ev(f, p);
                let v = ev(f, v);
                let n = ty.store_size();
                if ord.atomic() {
                    let addr = if s.multi() { self.conc64(s, &a)? } else { 0 };
                    self.sched_point(s, addr, n, true)?;
                    self.store(s, &a, ty, &v)?;
                    self.access(s, addr, n, true, true);
                    self.sync_store(s, addr, *ord, false);
                } else {
                    self.plain_point(s, &a, n, true)?;
                    self.store(s, &a, ty, &v)?;
                    self.plain_access(s, &a, n, true);
                }
                self.set(s, u32::MAX, Val::C(0));
            }
            I::Br(b) => self.goto(s, *b)?,
            I::CondBr(c, a, b) => {
                let c = ev(f, c);
                let t = match c {
                    Val::C(k) => k & 1 == 1,
                    Val::E(e) => self.fork_on(s, e)?,
                    _ => return unsup("branch on aggregate"),
                };
                self.goto(s, if t { *a } else { *b })?
            }
            I::Switch(ty, v, d, cases) => {
                let v = ev(f, v);
                let tgt = match v {
                    Val::C(k) => cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*d),
                    Val::E(e) => {
                        let k = eval(e, &s.model);
                        let w = ty.bits();
                        match cases.iter().find(|(c, _)| *c == k) {
                            Some((c, b)) => {
                                // cases with the same target are merged
                                let mut cond = eq(e, konst(w, *c));
                                for (c2, b2) in cases {
                                    if b2 == b && c2 != c {
                                        cond = or(cond, eq(e, konst(w, *c2)));
                                    }
                                }
                                self.fork_on(s, cond)?;
                                *b
                            }
                            None => {
                                let mut cond = tru();
                                for (c2, _) in cases {
                                    cond = and(cond, not(eq(e, konst(w, *c2))));
                                }
                                self.fork_on(s, cond)?;
                                *d
                            }
                        }
                    }
                    _ => return unsup("switch on aggregate"),
                };
                self.goto(s, tgt)?
            }
            I::Select(ct, ty, c, a, b) => {
                let (c, a, b) = (ev(f, c), ev(f, a), ev(f, b));
                let v = if let (Ty::Vec(..), Val::A(cs)) = (ct, &c) {
                    match (&a, &b) {
                        (Val::A(x), Val::A(y)) => {
                            let et = ty.elem(0);
                            Val::A(Rc::new((0..cs.len()).map(|i| select(&cs[i], &x[i], &y[i], &et)).collect()))
                        }
                        _ => return unsup("select"),
                    }
                } else {
                    match c {
                        Val::C(k) => {
                            if k & 1 == 1 {
                                a
                            } else {
                                b
                            }
                        }
                        _ => {
                            if *ty == Ty::Ptr && a != b {
                                // pointers: fork, so that addresses stay concrete
                                if let Val::E(e) = c {
                                    if self.fork_on(s, e)? {
                                        a
                                    } else {
                                        b
                                    }
                                } else {
                                    return unsup("select");
                                }
                            } else {
                                select(&c, &a, &b, ty)
                            }
                        }
                    }
                };
                self.set(s, dst, v);
            }
            I::Cast(c, t1, a, t2) => {
                let a = ev(f, a);
                let v = self.cast(*c, t1, &a, t2)?;
                self.set(s, dst, v);
            }
            I::Call(callee, rt, args, uw) => {
                let argv: Vec<Val> = args.iter().map(|(_, o)| ev(f, o)).collect();
                let id = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Ptr(o) => {
                        let p = ev(f, o);
                        let a = self.conc64(s, &p)?;
                        self.fn_at(a)?
                    }
                    Callee::Asm(t) => {
                        let v = if t.contains("cpuid") || t.contains("xgetbv") {
                            ir::zero_val(rt)
                        } else if t.trim().is_empty() {
                            // optimisation barrier: value-preserving forms pass their operand through
                            if *rt == Ty::Void {
                                Val::C(0)
                            } else {
                                argv.first().cloned().unwrap_or(Val::C(0))
                            }
                        } else {
                            return unsup(format!("inline asm {:?}", t));
                        };
                        if let Some((n, _)) = uw {
                            if dst != u32::MAX {
                                s.fr().regs[dst as usize] = v;
                            }
                            return self.goto(s, *n);
                        }
                        self.set(s, dst, v);
                        return Ok(());
                    }
                };
                self.call(s, id, argv, dst, rt, *uw)?;
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| ev(f, o));
                self.ret(s, v)?;
            }
            I::Alloca(sz, cnt, al) => {
                let c = ev(f, cnt);
                let n = self.conc64(s, &c)?;
                let a = s.mem.alloc(sz * n, *al, Kind::Stack, 0xA5).ok_or_else(|| Ex::Unsup("large alloca".into()))?;
                s.fr().allocas.push(a);
                self.set(s, dst, Val::C(a as u128));
            }
            I::ExtractValue(v, ix) => {
                let mut v = ev(f, v);
                for i in ix {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                self.set(s, dst, v);
            }
            I::InsertValue(_, v, e, ix) => {
                let v = ev(f, v);
                let e = ev(f, e);
                fn ins(v: &Val, e: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return e;
                    }
                    match v {
                        Val::A(x) => {
                            let mut y = (**x).clone();
                            y[ix[0] as usize] = ins(&x[ix[0] as usize], e, &ix[1..]);
                            Val::A(Rc::new(y))
                        }
                        _ => v.clone(),
                    }
                }
                let r = ins(&v, e, ix);
                self.set(s, dst, r);
            }
            I::Freeze(v) => {
                let v = ev(f, v);
                self.set(s, dst, v);
            }
            I::ExtractElement(v, i) => {
                let v = ev(f, v);
                let i = ev(f, i);
                let k = self.conc64(s, &i)? as usize;
                let r = match v {
                    Val::A(x) if k < x.len() => x[k].clone(),
                    _ => return unsup("extractelement"),
                };
                self.set(s, dst, r);
            }
            I::InsertElement(_, v, e, i) => {
                let v = ev(f, v);
                let e = ev(f, e);
                let i = ev(f, i);
                let k = self.conc64(s, &i)? as usize;
                let r = match v {
                    Val::A(x) if k < x.len() => {
                        let mut y = (*x).clone();
                        y[k] = e;
                        Val::A(Rc::new(y))
                    }
                    _ => return unsup("insertelement"),
                };
                self.set(s, dst, r);
            }
            I::Shuffle(ty, a, b, mask) => {
                let a = ev(f, a);
                let b = ev(f, b);
                let nn = ty.count();
                let r = match (a, b) {
                    (Val::A(x), Val::A(y)) => mask
                        .iter()
                        .map(|&i| {
                            let i = i.max(0) as usize;
                            if i < nn {
                                x[i].clone()
                            } else {
                                y[i - nn].clone()
                            }
                        })
                        .collect(),
                    _ => return unsup("shufflevector"),
                };
                self.set(s, dst, Val::A(Rc::new(r)));
            }
            I::AtomicRmw(op, ty, p, v, ord) => {
                let a = ev(f, p);
                let v = ev(f, v);
                let n = ty.store_size();
                let addr = if s.multi() { self.conc64(s, &a)? } else { 0 };
                self.sched_point(s, addr, n, true)?;
                let old = self.load(s, &a, ty)?;
                let new = rmw(*op, ty, &old, &v);
                self.store(s, &a, ty, &new)?;
                self.access(s, addr, n, true, true);
                self.sync_load(s, addr, *ord);
                self.sync_store(s, addr, *ord, true);
                self.set(s, dst, old);
            }
            I::CmpXchg(ty, p, c, nw, o1, o2) => {
                let a = ev(f, p);
                let c = ev(f, c);
                let nw = ev(f, nw);
                let n = ty.store_size();
                let addr = if s.multi() { self.conc64(s, &a)? } else { 0 };
                // load first (no side effect) so that a fork on the comparison re-executes cleanly
                self.sched_point(s, addr, n, true)?;
                let old = self.load(s, &a, ty)?;
                let same = icmp(Pred::Eq, ty, &old, &c);
                let ok = match same {
                    Val::C(k) => k == 1,
                    Val::E(e) => {
                        if s.multi() {
                            // mark the point as passed for the re-executed copy
                            let k = s.sched.len() - 1;
                            s.sched[k].1 -= 1;
                            s.t().passed = true;
                            let r = self.fork_on(s, e)?;
                            s.t().passed = false;
                            s.sched[k].1 += 1;
                            r
                        } else {
                            self.fork_on(s, e)?
                        }
                    }
                    _ => return unsup("cmpxchg"),
                };
                self.access(s, addr, n, ok, true);
                if ok {
                    self.store(s, &a, ty, &nw)?;
                    self.sync_load(s, addr, *o1);
                    self.sync_store(s, addr, *o1, true);
                } else {
                    self.sync_load(s, addr, *o2);
                }
                self.set(s, dst, Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            I::Fence(o) => {
                self.sync_fence(s, *o);
                self.set(s, u32::MAX, Val::C(0));
            }
            I::Unreachable => return bug("unreachable", "control reached code the compiler proved unreachable (undefined behaviour)"),
            I::Resume(v) => {
                let v = ev(f, v);
                let exc = match v {
                    Val::A(x) => c64(&x[0]).unwrap_or(0),
                    _ => 0,
                };
                self.pop_frame(s);
                self.unwind(s, exc)?;
            }
            I::LandingPad(_) => {
                return unsup("landingpad executed directly");
            }
            I::FBin(op, ty, a, b) => {
                let (x, y) = (ev(f, a), ev(f, b));
                if matches!(ty, Ty::F32 | Ty::F64) && *op != FOp::Rem && (matches!(x, Val::E(_)) || matches!(y, Val::E(_))) {
                    let w = ty.bits();
                    let k = match op {
                        FOp::Add => FP_ADD,
                        FOp::Sub => FP_SUB,
                        FOp::Mul => FP_MUL,
                        _ => FP_DIV,
                    };
                    let r = from_e(fp(k, w, to_e(&x, w), to_e(&y, w)));
                    self.set(s, dst, r);
                    return Ok(());
                }
                let (x, y) = (self.conc(s, &x)?, self.conc(s, &y)?);
                let r = if *ty == Ty::F32 {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let z = match op {
                        FOp::Add => x + y,
                        FOp::Sub => x - y,
                        FOp::Mul => x * y,
                        FOp::Div => x / y,
                        FOp::Rem => x % y,
                    };
                    z.to_bits() as u128
                } else if *ty == Ty::F64 {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    let z = match op {
                        FOp::Add => x + y,
                        FOp::Sub => x - y,
                        FOp::Mul => x * y,
                        FOp::Div => x / y,
                        FOp::Rem => x % y,
                    };
                    z.to_bits() as u128
                } else {
                    return unsup("vector float arithmetic");
                };
                self.set(s, dst, Val::C(r));
            }
            I::FNeg(ty, a) => {
                let x = ev(f, a);
                let w = ty.bits();
                if !matches!(ty, Ty::F32 | Ty::F64) {
                    return unsup("vector float arithmetic");
                }
                let r = from_e(xor(to_e(&x, w), konst(w, 1 << (w - 1))));
                self.set(s, dst, r);
            }
            I::FCmp(p, ty, a, b) => {
                let (x, y) = (ev(f, a), ev(f, b));
                if matches!(ty, Ty::F32 | Ty::F64) && (matches!(x, Val::E(_)) || matches!(y, Val::E(_))) {
                    let w = ty.bits();
                    let (x, y) = (to_e(&x, w), to_e(&y, w));
                    let un = or(fp(FP_NAN, 1, x, x), fp(FP_NAN, 1, y, y));
                    let lt = |a: E, b: E| fp(FP_LT, 1, a, b);
                    let le = |a: E, b: E| fp(FP_LE, 1, a, b);
                    let r = match p.as_str() {
                        "oeq" => fp(FP_EQ, 1, x, y),
                        "ogt" => lt(y, x),
                        "oge" => le(y, x),
                        "olt" => lt(x, y),
                        "ole" => le(x, y),
                        "one" => and(not(un), not(fp(FP_EQ, 1, x, y))),
                        "ord" => not(un),
                        "uno" => un,
                        "ueq" => or(un, fp(FP_EQ, 1, x, y)),
                        "ugt" => not(le(x, y)),
                        "uge" => not(lt(x, y)),
                        "ult" => not(le(y, x)),
                        "ule" => not(lt(y, x)),
                        "une" => not(fp(FP_EQ, 1, x, y)),
                        "true" => tru(),
                        "false" => fls(),
                        _ => return unsup("fcmp"),
                    };
                    self.set(s, dst, from_e(r));
                    return Ok(());
                }
                let (x, y) = (self.conc(s, &x)?, self.conc(s, &y)?);
                let (x, y) = if *ty == Ty::F32 {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                } else {
                    (f64::from_bits(x as u64), f64::from_bits(y as u64))
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "true" => true,
                    "false" => false,
                    _ => return unsup("fcmp"),
                };
                self.set(s, dst, Val::C(r as u128));
            }
        }
        Ok(())
    }

    fn pop_frame(&mut self, s: &mut State) {
        let f = s.t().frames.pop().unwrap();
        let id = f.f.id;
        for a in f.allocas {
            s.mem.kill(a, id);
        }
    }

    fn ret(&mut self, s: &mut State, v: Option<Val>) -> R<()> {
        let is_dtor = s.fr().is_dtor;
        self.pop_frame(s);
        if is_dtor {
            return Ok(());
        }
        if s.t().frames.is_empty() {
            return Ok(()); // thread_end on the next step
        }
        self.after_call(s, v)
    }
    /// Continue the caller after its call instruction produced `v`.
    pub fn after_call(&mut self, s: &mut State, v: Option<Val>) -> R<()> {
        let f = s.fr();
        let func = f.f.clone();
        let inst = &func.blocks[f.bb as usize].insts[f.ip as usize];
        if let (Some(v), true) = (v, inst.dst != u32::MAX) {
            f.regs[inst.dst as usize] = v;
        }
        match &inst.i {
            I::Call(_, _, _, Some((n, _))) => self.goto(s, *n),
            _ => {
                f.ip += 1;
                Ok(())
            }
        }
    }

    fn thread_end(&mut self, s: &mut State) -> R<()> {
        if s.cur == 0 {
            return Err(Ex::Done);
        }
        // thread-local destructors, last registered first
        if let Some((f, a)) = s.t().dtors.pop() {
            let id = self.fn_at(f)?;
            let func = self.m.func(id).map_err(Ex::Unsup)?;
            let mut regs = vec![Val::C(0); func.nregs as usize];
            if !regs.is_empty() {
                regs[0] = Val::C(a as u128);
            }
            self.st.funcs.insert(id);
            s.t().frames.push(Frame { f: func, bb: 0, ip: 0, regs, allocas: vec![], is_dtor: true });
            return Ok(());
        }
        let id = s.cur as u32;
        s.t().st = St::Done;
        for t in s.th.iter_mut() {
            if t.st == St::Join(id) {
                t.st = St::Run;
            }
        }
        self.must_switch(s, false)
    }

    pub fn call(&mut self, s: &mut State, id: u32, argv: Vec<Val>, dst: u32, rt: &Ty, uw: Option<(u32, u32)>) -> R<()> {
        if self.builtin[id as usize] {
            let name = self.m.fns[id as usize].name.clone();
            match crate::ext::call(self, s, &name, &argv, rt)? {
                crate::ext::Ret::Val(v) => {
                    if dst != u32::MAX {
                        s.fr().regs[dst as usize] = v;
                    }
                    if let Some((n, _)) = uw {
                        return self.goto(s, n);
                    }
                    s.fr().ip += 1;
                    return Ok(());
                }
                crate::ext::Ret::Moved => return Ok(()),
                crate::ext::Ret::Fallthrough => {}
            }
        }
        if self.m.fns[id as usize].def.is_none() {
            return unsup(format!("call of external function {}", self.m.fns[id as usize].name));
        }
        let func = self.m.func(id).map_err(Ex::Unsup)?;
        self.st.funcs.insert(id);
        let mut regs = vec![Val::C(0); func.nregs as usize];
        for (i, v) in argv.into_iter().enumerate() {
            if i < func.params.len() {
                regs[i] = v;
            }
        }
        let mut allocas = vec![];
        for (i, (_, bv)) in func.params.iter().enumerate() {
            if let Some(sz) = bv {
                let a = s.mem.alloc(*sz, 16, Kind::Stack, 0).ok_or_else(|| Ex::Unsup("byval".into()))?;
                let src = self.conc64(s, &regs[i].clone())?;
                let d = self.read_mem(s, src, *sz)?;
                self.write_mem(s, a, &d)?;
                allocas.push(a);
                regs[i] = Val::C(a as u128);
            }
        }
        if s.t().frames.len() > 4000 {
            return bug("stack overflow", "call depth exceeds 4000");
        }
        if self.cfg.trace {
            eprintln!("{}[{}] call {}", " ".repeat(s.t().frames.len()), s.cur, crate::demangle(&func.name));
        }
        s.t().frames.push(Frame { f: func, bb: 0, ip: 0, regs, allocas, is_dtor: false });
        Ok(())
    }

    fn landing(&self, f: &Frame) -> Option<(u32, Vec<Clause>)> {
        let inst = &f.f.blocks[f.bb as usize].insts[f.ip as usize];
        if let I::Call(_, _, _, Some((_, u))) = &inst.i {
            if let Some(Some(I::LandingPad(c))) = f.f.blocks.get(*u as usize).map(|b| b.insts.first().map(|i| i.i.clone())) {
                return Some((*u, c));
            }
        }
        None
    }
    /// Would an exception raised now be caught in this thread?
    pub fn has_catch(&self, s: &State) -> bool {
        for f in s.th[s.cur].frames.iter().rev() {
            if let Some((_, c)) = self.landing(f) {
                if c.contains(&Clause::Catch) {
                    return true;
                }
                if c.contains(&Clause::Filter) && !c.contains(&Clause::Cleanup) {
                    return false;
                }
            }
        }
        false
    }
    /// Unwind: the top frame is one whose current instruction raised (or is a call that unwound).
    pub fn unwind(&mut self, s: &mut State, exc: u64) -> R<()> {
        loop {
            if s.t().frames.is_empty() {
                return bug("panic", "uncaught panic");
            }
            let f = s.fr().clone_head();
            let l = {
                let f = s.t().frames.last().unwrap();
                self.landing(f)
            };
            let _ = f;
            if let Some((u, cl)) = l {
                let sel: u128 = if cl.contains(&Clause::Catch) {
                    1
                } else if cl.contains(&Clause::Filter) && !cl.contains(&Clause::Cleanup) {
                    (-1i32) as u32 as u128
                } else {
                    0
                };
                self.goto(s, u)?;
                let fr = s.fr();
                let func = fr.f.clone();
                let d = func.blocks[u as usize].insts[0].dst;
                if d != u32::MAX {
                    fr.regs[d as usize] = Val::A(Rc::new(vec![Val::C(exc as u128), Val::C(sel)]));
                }
                fr.ip = 1;
                return Ok(());
            }
            self.pop_frame(s);
        }
    }

    // ------------------------------------------------------------ scalar operations

    fn binop(&mut self, s: &mut State, op: expr::Op, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        use expr::Op;
        if let Ty::Vec(_, t) = ty {
            if let (Val::A(a), Val::A(b)) = (x, y) {
                let mut o = Vec::with_capacity(a.len());
                for i in 0..a.len() {
                    o.push(self.binop(s, op, t, &a[i], &b[i])?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
            return unsup("vector binop");
        }
        let w = ty.bits();
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            let zero = match y {
                Val::C(k) => *k & mask(w) == 0,
                Val::E(e) => self.fork_on(s, eq(*e, konst(w, 0)))?,
                _ => false,
            };
            if zero {
                return bug("division", "division by zero");
            }
        }
        match (x, y) {
            (Val::C(a), Val::C(b)) => Ok(Val::C(fold2(op, w, *a & mask(w), *b & mask(w)).unwrap() & mask(w))),
            (Val::A(_), _) | (_, Val::A(_)) => unsup("binop on aggregate"),
            _ => Ok(from_e(bin(op, to_e(x, w), to_e(y, w)))),
        }
    }

    fn cast(&mut self, c: Cast, t1: &Ty, a: &Val, t2: &Ty) -> R<Val> {
        match c {
            Cast::Bitcast => return bitcast(t1, a, t2),
            Cast::AddrSpace => return Ok(a.clone()),
            _ => {}
        }
        if let (Ty::Vec(_, e1), Ty::Vec(_, e2), Val::A(v)) = (t1, t2, a) {
            let mut o = vec![];
            for x in v.iter() {
                o.push(self.cast(c, e1, x, e2)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let (w1, w2) = (t1.bits(), t2.bits());
        Ok(match c {
            Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr => match a {
                Val::C(k) => Val::C(*k & mask(w1) & mask(w2)),
                Val::E(e) => from_e(if w2 < w1 { extract(*e, 0, w2) } else { zext(*e, w2) }),
                _ => return unsup("cast"),
            },
            Cast::SExt => match a {
                Val::C(k) => Val::C(sext128(*k & mask(w1), w1) as u128 & mask(w2)),
                Val::E(e) => from_e(sext(*e, w2)),
                _ => return unsup("cast"),
            },
            _ => {
                let k = match a {
                    Val::C(k) => *k,
                    Val::E(e) if matches!((c, t1, t2), (Cast::UiToFp | Cast::SiToFp, _, Ty::F32 | Ty::F64) | (_, Ty::F32 | Ty::F64, _)) => {
                        let k = match c {
                            Cast::FpToUi => FP_TO_U,
                            Cast::FpToSi => FP_TO_S,
                            Cast::UiToFp => FP_FROM_U,
                            Cast::SiToFp => FP_FROM_S,
                            _ => FP_RESIZE,
                        };
                        return Ok(from_e(fp(k, w2, *e, *e)));
                    }
                    _ => return unsup("symbolic floating-point conversion"),
                };
                let fl = |t: &Ty, k: u128| if *t == Ty::F32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
                let enc = |t: &Ty, f: f64| if *t == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                Val::C(match c {
                    Cast::FpToUi => (fl(t1, k) as u128) & mask(w2),
                    Cast::FpToSi => (fl(t1, k) as i128 as u128) & mask(w2),
                    Cast::UiToFp => {
                        if *t2 == Ty::F32 {
                            (k as f32).to_bits() as u128
                        } else {
                            (k as f64).to_bits() as u128
                        }
                    }
                    Cast::SiToFp => {
                        let v = sext128(k, w1);
                        if *t2 == Ty::F32 {
                            (v as f32).to_bits() as u128
                        } else {
                            (v as f64).to_bits() as u128
                        }
                    }
                    Cast::FpTrunc | Cast::FpExt => enc(t2, fl(t1, k)),
                    _ => unreachable!(),
                })
            }
        })
    }
}

impl Frame {
    fn clone_head(&self) -> u32 {
        self.bb
    }
}

pub fn low_zeros(e: E) -> u32 {
    let x = n(e);
    match x.op {
        expr::Op::Const => {
            if x.k == 0 {
                x.w as u32
            } else {
                x.k.trailing_zeros()
            }
        }
        expr::Op::Concat => {
            let b = n(x.b);
            let l = low_zeros(x.b);
            if l >= b.w as u32 {
                b.w as u32 + low_zeros(x.a)
            } else {
                l
            }
        }
        expr::Op::Add | expr::Op::Sub => low_zeros(x.a).min(low_zeros(x.b)),
        expr::Op::Mul => low_zeros(x.a) + low_zeros(x.b),
        expr::Op::ZExt | expr::Op::SExt => low_zeros(x.a),
        expr::Op::Ite => low_zeros(x.b).min(low_zeros(x.c)),
        expr::Op::Shl => match as_const(x.b) {
            Some(k) => low_zeros(x.a) + k as u32,
            None => low_zeros(x.a),
        },
        _ => 0,
    }
}

pub fn select(c: &Val, a: &Val, b: &Val, ty: &Ty) -> Val {
    match c {
        Val::C(k) => {
            if k & 1 == 1 {
                a.clone()
            } else {
                b.clone()
            }
        }
        Val::E(e) => match (a, b) {
            (Val::A(x), Val::A(y)) => Val::A(Rc::new((0..x.len()).map(|i| select(c, &x[i], &y[i], &ty.elem(i))).collect())),
            _ => {
                let w = ty.bits();
                from_e(ite(*e, to_e(a, w), to_e(b, w)))
            }
        },
        _ => a.clone(),
    }
}

pub fn icmp(p: Pred, ty: &Ty, x: &Val, y: &Val) -> Val {
    if let Ty::Vec(_, t) = ty {
        if let (Val::A(a), Val::A(b)) = (x, y) {
            return Val::A(Rc::new((0..a.len()).map(|i| icmp(p, t, &a[i], &b[i])).collect()));
        }
    }
    let w = ty.bits();
    if let (Val::C(a), Val::C(b)) = (x, y) {
        let (a, b) = (*a & mask(w), *b & mask(w));
        let (sa, sb) = (sext128(a, w), sext128(b, w));
        let r = match p {
            Pred::Eq => a == b,
            Pred::Ne => a != b,
            Pred::Ugt => a > b,
            Pred::Uge => a >= b,
            Pred::Ult => a < b,
            Pred::Ule => a <= b,
            Pred::Sgt => sa > sb,
            Pred::Sge => sa >= sb,
            Pred::Slt => sa < sb,
            Pred::Sle => sa <= sb,
        };
        return Val::C(r as u128);
    }
    let (a, b) = (to_e(x, w), to_e(y, w));
    from_e(match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => not(eq(a, b)),
        Pred::Ugt => ult(b, a),
        Pred::Uge => ule(b, a),
        Pred::Ult => ult(a, b),
        Pred::Ule => ule(a, b),
        Pred::Sgt => slt(b, a),
        Pred::Sge => sle(b, a),
        Pred::Slt => slt(a, b),
        Pred::Sle => sle(a, b),
    })
}

fn bitcast(t1: &Ty, a: &Val, t2: &Ty) -> R<Val> {
    if t1 == t2 || t1.is_scalar() && t2.is_scalar() {
        return Ok(a.clone());
    }
    // to bits
    let e: Val = match (t1, a) {
        (Ty::Vec(_, et), Val::A(v)) => {
            let w = et.bits();
            if v.iter().all(|x| matches!(x, Val::C(_))) && v.len() as u32 * w as u32 <= 128 {
                let mut acc = 0u128;
                for (i, x) in v.iter().enumerate() {
                    if let Val::C(k) = x {
                        acc |= (*k & mask(w)) << (i as u32 * w as u32);
                    }
                }
                Val::C(acc)
            } else {
                if v.len() as u32 * w as u32 > 128 {
                    return unsup("wide bitcast");
                }
                let mut acc: Option<E> = None;
                for x in v.iter() {
                    let b = to_e(x, w);
                    acc = Some(match acc {
                        None => b,
                        Some(r) => concat(b, r),
                    });
                }
                from_e(acc.unwrap())
            }
        }
        (_, v) => v.clone(),
    };
    match t2 {
        Ty::Vec(n, et) => {
            let w = et.bits();
            let tot = *n as u16 * w;
            if tot > 128 {
                return unsup("wide bitcast");
            }
            Ok(Val::A(Rc::new(
                (0..*n)
                    .map(|i| match &e {
                        Val::C(k) => Val::C((*k >> (i as u32 * w as u32)) & mask(w)),
                        v => from_e(extract(to_e(v, tot), i as u16 * w, w)),
                    })
                    .collect(),
            )))
        }
        _ => Ok(e),
    }
}

fn rmw(op: Rmw, ty: &Ty, old: &Val, v: &Val) -> Val {
    let w = ty.bits();
    let (a, b) = (to_e(old, w), to_e(v, w));
    from_e(match op {
        Rmw::Xchg => b,
        Rmw::Add => add(a, b),
        Rmw::Sub => sub(a, b),
        Rmw::And => and(a, b),
        Rmw::Nand => not(and(a, b)),
        Rmw::Or => or(a, b),
        Rmw::Xor => xor(a, b),
        Rmw::Max => ite(slt(a, b), b, a),
        Rmw::Min => ite(slt(a, b), a, b),
        Rmw::UMax => ite(ult(a, b), b, a),
        Rmw::UMin => ite(ult(a, b), a, b),
        Rmw::UIncWrap => ite(ule(b, a), konst(w, 0), add(a, konst(w, 1))),
        Rmw::UDecWrap => ite(or(eq(a, konst(w, 0)), ult(b, a)), b, sub(a, konst(w, 1))),
        Rmw::USubCond => ite(ule(b, a), sub(a, b), a),
        Rmw::USubSat => ite(ule(b, a), sub(a, b), konst(w, 0)),
    })
}

#[allow(dead_code)]
const _: u32 = SLOT_BITS;
