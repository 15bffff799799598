//! SMT back end: pipes QF_BV queries to an external solver.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone)]
pub enum Sat {
    Sat(std::rc::Rc<Model>),
    Unsat,
    Unknown,
}

pub struct Solver {
    cmd: Vec<String>,
    proc_: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    cache: HashMap<Vec<E>, Sat>,
    recent: Vec<std::rc::Rc<Model>>,
    pub timeout_ms: u64,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub cross: Option<Box<Solver>>,
    pub cross_checked: u64,
    pub cross_disagree: u64,
    /// What is left of the time cross-checking may take, in seconds.
    pub cross_left: f64,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new(kind: &str, timeout_ms: u64) -> Solver {
        let cmd: Vec<String> = match kind {
            "cvc5" => vec!["cvc5".into(), "--lang=smt2".into(), "--incremental".into(), "--produce-models".into(), format!("--tlimit-per={}", timeout_ms)],
            "z3" => vec!["z3".into(), "-in".into(), format!("-t:{}", timeout_ms)],
            _ => vec!["z3-new".into(), "-in".into(), format!("-t:{}", timeout_ms)],
        };
        Solver {
            cmd,
            proc_: None,
            cache: HashMap::new(),
            recent: vec![],
            timeout_ms,
            queries: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            cache_hits: 0,
            model_hits: 0,
            time: 0.0,
            max_time: 0.0,
            cross: None,
            cross_checked: 0,
            cross_disagree: 0,
            cross_left: 600.0,
            dump: None,
        }
    }
    pub fn name(&self) -> String {
        self.cmd[0].clone()
    }

    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {}: {}", self.cmd[0], e));
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.proc_ = Some((c, i, o));
    }

    /// Constraints of `pc` transitively sharing variables with `q`, plus `q`.
    fn slice(pc: &[E], q: &[E]) -> Vec<E> {
        let mut vars: HashSet<u32> = HashSet::new();
        for &e in q {
            vars.extend(vars_of(e).iter());
        }
        let mut used = vec![false; pc.len()];
        let mut out: Vec<E> = q.to_vec();
        loop {
            let mut ch = false;
            for (i, &e) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = vars_of(e);
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(e);
                    vars.extend(vs.iter());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    /// Is pc /\ q satisfiable? `base` satisfies pc.
    pub fn check(&mut self, pc: &[E], q: &[E], base: &std::rc::Rc<Model>) -> Sat {
        let mut qq: Vec<E> = vec![];
        for &e in q {
            match as_const(e) {
                Some(1) => {}
                Some(_) => return Sat::Unsat,
                None => qq.push(e),
            }
        }
        if qq.is_empty() {
            return Sat::Sat(base.clone());
        }
        let s = Self::slice(pc, &qq);
        if let Some(r) = self.cache.get(&s) {
            self.cache_hits += 1;
            return self.merge(r.clone(), base, &s);
        }
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            if s.iter().all(|e| eval(*e, &m) == 1) {
                self.model_hits += 1;
                return self.merge(Sat::Sat(m), base, &s);
            }
        }
        let r = match self.guess(&s, base) {
            Some(m) => Sat::Sat(m),
            None => self.solve(&s),
        };
        self.cache.insert(s.clone(), r.clone());
        if let Sat::Sat(m) = &r {
            if self.recent.len() > 24 {
                self.recent.remove(0);
            }
            self.recent.push(m.clone());
        }
        self.merge(r, base, &s)
    }

    /// Floating-point queries are hard for the solver: look for a model by evaluation first. Only a
    /// satisfying assignment is ever taken from here; "unsat" always comes from the solver.
    fn guess(&mut self, s: &[E], base: &std::rc::Rc<Model>) -> Option<std::rc::Rc<Model>> {
        if !cx().has_fp || !s.iter().any(|e| uses_fp(*e)) {
            return None;
        }
        let mut vars: Vec<u32> = vec![];
        for e in s {
            vars.extend(vars_of(*e).iter());
        }
        vars.sort();
        vars.dedup();
        let mut x = 0x9e37_79b9_7f4a_7c15u64;
        let mut rnd = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for i in 0..6000 {
            let mut m: Model = (**base).clone();
            for v in &vars {
                if i % 3 == 0 || rnd() % 2 == 0 {
                    let w = cx().vars[*v as usize].1;
                    let r = ((rnd() as u128) << 64) | rnd() as u128;
                    let sh = (rnd() % w as u64) as u16;
                    let k = match rnd() % 4 {
                        0 => r,
                        1 => r & (mask(w) >> sh),
                        2 => (1u128 << sh).wrapping_add((rnd() % 5) as u128).wrapping_sub(2),
                        _ => (r & (mask(w) >> sh)) | 1,
                    };
                    m.insert(*v, k & mask(w));
                }
            }
            if s.iter().all(|e| eval(*e, &m) == 1) {
                self.model_hits += 1;
                return Some(std::rc::Rc::new(m));
            }
        }
        None
    }

    fn merge(&self, r: Sat, base: &std::rc::Rc<Model>, s: &[E]) -> Sat {
        match r {
            Sat::Sat(m) => {
                let mut out: Model = (**base).clone();
                for e in s {
                    for v in vars_of(*e).iter() {
                        out.insert(*v, *m.get(v).unwrap_or(&0));
                    }
                }
                Sat::Sat(std::rc::Rc::new(out))
            }
            x => x,
        }
    }

    fn solve(&mut self, s: &[E]) -> Sat {
        let t0 = Instant::now();
        let (text, vars) = smt(s);
        self.queries += 1;
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("(set-logic {})\n{}(check-sat)\n", if text.contains("to_fp") { "QF_BVFP" } else { "QF_BV" }, text));
        }
        let r = self.run(&text, &vars);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match &r {
            Sat::Sat(m) => {
                self.sat += 1;
                // the model must satisfy the query: guards against solver/encoding disagreements
                for e in s {
                    if eval(*e, m) != 1 {
                        eprintln!("llsym: solver model does not satisfy the query");
                        self.unknown += 1;
                        return Sat::Unknown;
                    }
                }
            }
            Sat::Unsat => {
                self.unsat += 1;
                if let Some(x) = self.cross.as_mut().filter(|_| self.cross_left > 0.0) {
                    let begin = std::time::Instant::now();
                    let r2 = x.run(&text, &vars);
                    self.cross_left -= begin.elapsed().as_secs_f64();
                    match r2 {
                        Sat::Unsat => self.cross_checked += 1,
                        Sat::Sat(_) => {
                            self.cross_disagree += 1;
                            eprintln!("llsym: solvers disagree");
                            return Sat::Unknown;
                        }
                        Sat::Unknown => {}
                    }
                }
            }
            Sat::Unknown => self.unknown += 1,
        }
        r
    }

    /// Have the solver confirm the simplifications recorded so far. Returns (confirmed, refuted or unknown).
    pub fn audit(&mut self, seconds: u64) -> (u64, u64) {
        let end = std::time::Instant::now() + std::time::Duration::from_secs(seconds);
        let list = std::mem::take(&mut audit_ctx().list);
        audit_ctx().on = false;
        let (mut good, mut bad) = (0, 0);
        for ch in list.chunks(16) {
            if std::time::Instant::now() > end {
                break;
            }
            let mut q = String::new();
            if self.cmd[0] != "cvc5" {
                q.push_str("(set-option :timeout 3000)\n");
            }
            let mut es = vec![];
            let mut names = vec![];
            for (raw, r) in ch {
                es.push(*raw);
                es.push(*r);
            }
            let (text, vars) = smt_terms(&es, &mut names);
            q.push_str(&text);
            q.push_str("(assert (or false");
            for p in names.chunks(2) {
                let _ = write!(q, " (not (= {} {}))", p[0], p[1]);
            }
            q.push_str("))\n");
            match self.run(&q, &vars) {
                Sat::Unsat => good += ch.len() as u64,
                Sat::Sat(_) => {
                    eprintln!("llsym: a simplification is wrong:\n{}", q);
                    bad += ch.len() as u64
                }
                Sat::Unknown => {}
            }
        }
        (good, bad)
    }

    fn run(&mut self, text: &str, vars: &[u32]) -> Sat {
        for attempt in 0..2 {
            if self.proc_.is_none() {
                self.start();
            }
            match self.try_run(text, vars) {
                Ok(r) => return r,
                Err(e) => {
                    if attempt == 1 || e.contains("error") {
                        eprintln!("llsym: solver failure: {}", e);
                    }
                    if let Some((mut c, _, _)) = self.proc_.take() {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                }
            }
        }
        Sat::Unknown
    }

    fn try_run(&mut self, text: &str, vars: &[u32]) -> Result<Sat, String> {
        let cvc = self.cmd[0] == "cvc5";
        let fp = text.contains("to_fp");
        if cvc && fp {
            return Ok(Sat::Unknown); // no fp.to_ieee_bv
        }
        let (_, i, o) = self.proc_.as_mut().unwrap();
        let mut msg = String::with_capacity(text.len() + 64);
        if cvc {
            msg.push_str("(reset)\n(set-logic QF_BV)\n");
        } else {
            msg.push_str("(reset)\n(set-option :produce-models true)\n");
            msg.push_str(if fp { "(set-logic QF_BVFP)\n" } else { "(set-logic QF_BV)\n" });
        }
        msg.push_str(text);
        msg.push_str("(check-sat)\n(echo \"done\")\n");
        i.write_all(msg.as_bytes()).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let mut ans = String::new();
        loop {
            let mut l = String::new();
            if o.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                return Err("solver closed its output".into());
            }
            let l = l.trim();
            if l == "done" || l == "\"done\"" {
                break;
            }
            if l.contains("(error") {
                return Err(l.to_string());
            }
            if !l.is_empty() {
                ans = l.to_string();
            }
        }
        match ans.as_str() {
            "unsat" => return Ok(Sat::Unsat),
            "sat" => {}
            _ => return Ok(Sat::Unknown),
        }
        let mut q = String::from("(get-value (");
        for v in vars {
            let _ = write!(q, "v{} ", v);
        }
        q.push_str("))\n(echo \"done\")\n");
        i.write_all(q.as_bytes()).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let mut all = String::new();
        loop {
            let mut l = String::new();
            if o.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                return Err("solver closed its output".into());
            }
            let t = l.trim();
            if t == "done" || t == "\"done\"" {
                break;
            }
            if t.contains("(error") {
                return Err(t.to_string());
            }
            all.push_str(t);
            all.push(' ');
        }
        let mut m = Model::new();
        let toks: Vec<&str> = all.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
        let mut k = 0;
        while k < toks.len() {
            if let Some(id) = toks[k].strip_prefix('v') {
                if let Ok(id) = id.parse::<u32>() {
                    let val = toks.get(k + 1).copied().unwrap_or("");
                    let v = if let Some(h) = val.strip_prefix("#x") {
                        u128::from_str_radix(h, 16).map_err(|e| e.to_string())?
                    } else if let Some(b) = val.strip_prefix("#b") {
                        u128::from_str_radix(b, 2).map_err(|e| e.to_string())?
                    } else if val == "_" {
                        // (_ bvN w)
                        let r = toks.get(k + 2).and_then(|s| s.strip_prefix("bv")).and_then(|s| s.parse().ok()).ok_or("value")?;
                        k += 2;
                        r
                    } else {
                        return Err(format!("unparsable value {}", val));
                    };
                    m.insert(id, v);
                    k += 2;
                    continue;
                }
            }
            k += 1;
        }
        Ok(Sat::Sat(std::rc::Rc::new(m)))
    }
}

fn smt(s: &[E]) -> (String, Vec<u32>) {
    let mut names = vec![];
    let (mut o, vars) = smt_terms(s, &mut names);
    for e in names {
        let _ = writeln!(o, "(assert (= {} #b1))", e);
    }
    (o, vars)
}

fn uses_fp(e: E) -> bool {
    let ctx = cx();
    let mut seen = HashSet::new();
    let mut st = vec![e];
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        let x = ctx.nodes[t as usize];
        if x.op == Op::Fp {
            return true;
        }
        st.extend(children(&x));
    }
    false
}

fn fp_sort(w: u16) -> &'static str {
    if w == 32 {
        "8 24"
    } else {
        "11 53"
    }
}

/// A floating-point node as a bit-vector term (NaN results are the canonical quiet NaN).
fn fp_smt(x: &Node, wa: u16, a: &str, b: &str) -> String {
    let fa = format!("((_ to_fp {}) {})", fp_sort(wa), a);
    let fb = format!("((_ to_fp {}) {})", fp_sort(wa), b);
    let back = |t: String| {
        let nan: u128 = if x.w == 32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 };
        format!("(let ((z {})) (ite (fp.isNaN z) (_ bv{} {}) (fp.to_ieee_bv z)))", t, nan, x.w)
    };
    let bit = |t: String| format!("(ite {} #b1 #b0)", t);
    let pow = |neg: bool, e: u16| {
        let v = 2f64.powi(e as i32) * if neg { -1.0 } else { 1.0 };
        let bits = if wa == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
        format!("((_ to_fp {}) (_ bv{} {}))", fp_sort(wa), bits, wa)
    };
    match x.k {
        FP_ADD => back(format!("(fp.add RNE {} {})", fa, fb)),
        FP_SUB => back(format!("(fp.sub RNE {} {})", fa, fb)),
        FP_MUL => back(format!("(fp.mul RNE {} {})", fa, fb)),
        FP_DIV => back(format!("(fp.div RNE {} {})", fa, fb)),
        FP_LT => bit(format!("(fp.lt {} {})", fa, fb)),
        FP_LE => bit(format!("(fp.leq {} {})", fa, fb)),
        FP_EQ => bit(format!("(fp.eq {} {})", fa, fb)),
        FP_NAN => bit(format!("(fp.isNaN {})", fa)),
        FP_FROM_U => back(format!("((_ to_fp_unsigned {}) RNE {})", fp_sort(x.w), a)),
        FP_FROM_S => back(format!("((_ to_fp {}) RNE {})", fp_sort(x.w), a)),
        FP_TO_U => format!(
            "(let ((f {})) (ite (or (fp.isNaN f) (fp.isNegative f)) (_ bv0 {w}) (ite (fp.geq f {}) (bvnot (_ bv0 {w})) ((_ fp.to_ubv {w}) RTZ f))))",
            fa,
            pow(false, x.w),
            w = x.w
        ),
        FP_TO_S => format!(
            "(let ((f {})) (ite (fp.isNaN f) (_ bv0 {w}) (ite (fp.geq f {}) (_ bv{} {w}) (ite (fp.leq f {}) (_ bv{} {w}) ((_ fp.to_sbv {w}) RTZ f)))))",
            fa,
            pow(false, x.w - 1),
            mask(x.w) >> 1,
            pow(true, x.w - 1),
            (mask(x.w) >> 1) + 1,
            w = x.w
        ),
        FP_RESIZE => back(format!("((_ to_fp {}) RNE {})", fp_sort(x.w), fa)),
        FP_FLOOR => back(format!("(fp.roundToIntegral RTN {})", fa)),
        FP_CEIL => back(format!("(fp.roundToIntegral RTP {})", fa)),
        FP_TRUNC => back(format!("(fp.roundToIntegral RTZ {})", fa)),
        FP_RNE => back(format!("(fp.roundToIntegral RNE {})", fa)),
        FP_RNA => back(format!("(fp.roundToIntegral RNA {})", fa)),
        FP_SQRT => back(format!("(fp.sqrt RNE {})", fa)),
        _ => unreachable!(),
    }
}

fn smt_terms(s: &[E], names: &mut Vec<String>) -> (String, Vec<u32>) {
    let ctx = cx();
    let mut order: Vec<E> = vec![];
    let mut seen: HashSet<E> = HashSet::new();
    let mut st: Vec<(E, bool)> = s.iter().map(|e| (*e, false)).collect();
    let mut vars = vec![];
    while let Some((e, done)) = st.pop() {
        if done {
            order.push(e);
            continue;
        }
        if !seen.insert(e) {
            continue;
        }
        let x = ctx.nodes[e as usize];
        match x.op {
            Op::Const => {}
            Op::Var => vars.push(x.k as u32),
            _ => {
                st.push((e, true));
                for c in children(&x) {
                    st.push((c, false));
                }
            }
        }
    }
    let mut o = String::new();
    for v in &vars {
        let _ = writeln!(o, "(declare-const v{} (_ BitVec {}))", v, ctx.vars[*v as usize].1);
    }
    let r = |e: E| -> String {
        let x = ctx.nodes[e as usize];
        match x.op {
            Op::Const => format!("(_ bv{} {})", x.k, x.w),
            Op::Var => format!("v{}", x.k),
            _ => format!("n{}", e),
        }
    };
    for e in order {
        let x = ctx.nodes[e as usize];
        let body = match x.op {
            Op::Not => format!("(bvnot {})", r(x.a)),
            Op::And => format!("(bvand {} {})", r(x.a), r(x.b)),
            Op::Or => format!("(bvor {} {})", r(x.a), r(x.b)),
            Op::Xor => format!("(bvxor {} {})", r(x.a), r(x.b)),
            Op::Add => format!("(bvadd {} {})", r(x.a), r(x.b)),
            Op::Sub => format!("(bvsub {} {})", r(x.a), r(x.b)),
            Op::Mul => format!("(bvmul {} {})", r(x.a), r(x.b)),
            Op::UDiv => format!("(bvudiv {} {})", r(x.a), r(x.b)),
            Op::SDiv => format!("(bvsdiv {} {})", r(x.a), r(x.b)),
            Op::URem => format!("(bvurem {} {})", r(x.a), r(x.b)),
            Op::SRem => format!("(bvsrem {} {})", r(x.a), r(x.b)),
            Op::Shl => format!("(bvshl {} {})", r(x.a), r(x.b)),
            Op::LShr => format!("(bvlshr {} {})", r(x.a), r(x.b)),
            Op::AShr => format!("(bvashr {} {})", r(x.a), r(x.b)),
            Op::Concat => format!("(concat {} {})", r(x.a), r(x.b)),
            Op::Extract => format!("((_ extract {} {}) {})", x.k as u32 + x.w as u32 - 1, x.k, r(x.a)),
            Op::ZExt => format!("((_ zero_extend {}) {})", x.w - ctx.nodes[x.a as usize].w, r(x.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", x.w - ctx.nodes[x.a as usize].w, r(x.a)),
            Op::Eq => format!("(ite (= {} {}) #b1 #b0)", r(x.a), r(x.b)),
            Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", r(x.a), r(x.b)),
            Op::Ule => format!("(ite (bvule {} {}) #b1 #b0)", r(x.a), r(x.b)),
            Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", r(x.a), r(x.b)),
            Op::Sle => format!("(ite (bvsle {} {}) #b1 #b0)", r(x.a), r(x.b)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", r(x.a), r(x.b), r(x.c)),
            Op::Fp => fp_smt(&x, ctx.nodes[x.a as usize].w, &r(x.a), &r(x.b)),
            Op::Const | Op::Var => unreachable!(),
        };
        let _ = writeln!(o, "(define-fun n{} () (_ BitVec {}) {})", e, x.w, body);
    }
    for e in s {
        names.push(r(*e));
    }
    (o, vars)
}
