//! Hash-consed bit-vector expression DAG with simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    /// IEEE floating-point operation `k` (see `fp`) over the bit patterns `a` and `b` (unary operations have b = a).
    Fp,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vars: Vec<(String, u16)>,
    /// some expression uses floating point
    pub has_fp: bool,
    varsets: HashMap<E, std::rc::Rc<Vec<u32>>>,
    // evaluation scratch
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    ev_gen: u32,
}

static mut CTX: Option<Ctx> = None;

#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    // SAFETY: the engine is single threaded.
    unsafe {
        if CTX.is_none() {
            CTX = Some(Ctx {
                nodes: vec![],
                map: HashMap::new(),
                vars: vec![],
                has_fp: false,
                varsets: HashMap::new(),
                ev_stamp: vec![],
                ev_val: vec![],
                ev_gen: 0,
            });
        }
        CTX.as_mut().unwrap()
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

#[inline]
pub fn n(e: E) -> Node {
    cx().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u16 {
    cx().nodes[e as usize].w
}
#[inline]
pub fn as_const(e: E) -> Option<u128> {
    let x = &cx().nodes[e as usize];
    if x.op == Op::Const {
        Some(x.k)
    } else {
        None
    }
}

fn mk(op: Op, w: u16, a: u32, b: u32, c: u32, k: u128) -> E {
    let nd = Node { op, w, a, b, c, k };
    let ctx = cx();
    if let Some(&e) = ctx.map.get(&nd) {
        return e;
    }
    let e = ctx.nodes.len() as u32;
    ctx.nodes.push(nd);
    ctx.map.insert(nd, e);
    e
}

pub fn konst(w: u16, v: u128) -> E {
    assert!(w <= 128, "constant wider than 128 bits");
    mk(Op::Const, w, 0, 0, 0, v & mask(w))
}
pub fn var(name: &str, w: u16) -> E {
    let ctx = cx();
    let id = ctx.vars.len() as u128;
    ctx.vars.push((name.to_string(), w));
    mk(Op::Var, w, 0, 0, 0, id)
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fls() -> E {
    konst(1, 0)
}

pub fn fold2(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
    // w = operand width
    let m = mask(w);
    Some(match op {
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext128(x, w);
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            let s = s.min(127);
            ((a >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext128(x, w) < sext128(y, w)) as u128,
        Op::Sle => (sext128(x, w) <= sext128(y, w)) as u128,
        _ => return None,
    })
}

fn not_s(a: E) -> E {
    let x = n(a);
    match x.op {
        Op::Const => konst(x.w, !x.k),
        Op::Not => x.a,
        Op::Ult if x.w == 1 => ule(x.b, x.a),
        Op::Ule if x.w == 1 => ult(x.b, x.a),
        Op::Slt if x.w == 1 => sle(x.b, x.a),
        Op::Sle if x.w == 1 => slt(x.b, x.a),
        _ => mk(Op::Not, x.w, a, 0, 0, 0),
    }
}
fn comm(a: E, b: E) -> (E, E) {
    // constants to the right
    match (as_const(a).is_some(), as_const(b).is_some()) {
        (true, false) => (b, a),
        (false, true) => (a, b),
        _ => {
            if a > b {
                (b, a)
            } else {
                (a, b)
            }
        }
    }
}

fn and_s(a: E, b: E) -> E {
    let (a, b) = comm(a, b);
    let w = width(a);
    if a == b {
        return a;
    }
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, x & y);
        }
        if y == 0 {
            return b;
        }
        if y == mask(w) {
            return a;
        }
        // low mask -> zext(extract)
        let x = n(a);
        if y & (y + 1) == 0 {
            let k = 128 - y.leading_zeros() as u16;
            return zext(extract(a, 0, k), w);
        }
        if x.op == Op::And {
            if let Some(z) = as_const(x.b) {
                return and(x.a, konst(w, z & y));
            }
        }
        if x.op == Op::ZExt && w > 1 {
            let iw = width(x.a);
            if y & mask(iw) == mask(iw) {
                return a;
            }
            return zext(and(x.a, konst(iw, y)), w);
        }
        if x.op == Op::Ite && as_const(x.b).is_some() && as_const(x.c).is_some() {
            return ite(x.a, and(x.b, b), and(x.c, b));
        }
    }
    if w == 1 {
        if n(b).op == Op::Not && n(b).a == a || n(a).op == Op::Not && n(a).a == b {
            return fls();
        }
    }
    mk(Op::And, w, a, b, 0, 0)
}
fn or_s(a: E, b: E) -> E {
    let (a, b) = comm(a, b);
    let w = width(a);
    if a == b {
        return a;
    }
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, x | y);
        }
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return b;
        }
    }
    if w == 1 {
        if n(b).op == Op::Not && n(b).a == a || n(a).op == Op::Not && n(a).a == b {
            return tru();
        }
    }
    // (zext hi << k) | zext lo  ==> concat
    if w > 1 {
        if let Some(r) = or_as_concat(a, b, w) {
            return r;
        }
        if let Some(r) = or_as_concat(b, a, w) {
            return r;
        }
    }
    mk(Op::Or, w, a, b, 0, 0)
}
fn low_zero_bits(e: E) -> u16 {
    let x = n(e);
    match x.op {
        Op::Const => {
            if x.k == 0 {
                x.w
            } else {
                x.k.trailing_zeros() as u16
            }
        }
        Op::Concat => {
            let lz = low_zero_bits(x.b);
            if lz == width(x.b) {
                lz + low_zero_bits(x.a)
            } else {
                lz
            }
        }
        Op::ZExt => {
            let l = low_zero_bits(x.a);
            if l == width(x.a) {
                x.w
            } else {
                l
            }
        }
        Op::Shl => match as_const(x.b) {
            Some(k) if k < x.w as u128 => (low_zero_bits(x.a) + k as u16).min(x.w),
            _ => 0,
        },
        _ => 0,
    }
}
fn high_zero_bits(e: E) -> u16 {
    let x = n(e);
    match x.op {
        Op::Const => x.w - (128 - x.k.leading_zeros() as u16).min(x.w),
        Op::ZExt => x.w - width(x.a) + high_zero_bits(x.a),
        Op::Concat => {
            let h = high_zero_bits(x.a);
            if h == width(x.a) {
                h + high_zero_bits(x.b)
            } else {
                h
            }
        }
        _ => 0,
    }
}
// a has its set bits above b's
fn or_as_concat(a: E, b: E, w: u16) -> Option<E> {
    let lz = low_zero_bits(a);
    if lz == 0 || lz >= w {
        return None;
    }
    let hz = high_zero_bits(b);
    if w - hz <= lz {
        let hi = extract(a, lz, w - lz);
        let lo = extract(b, 0, lz);
        return Some(concat(hi, lo));
    }
    None
}
fn xor_s(a: E, b: E) -> E {
    let (a, b) = comm(a, b);
    let w = width(a);
    if a == b {
        return konst(w, 0);
    }
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, x ^ y);
        }
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return not(a);
        }
        let x = n(a);
        if x.op == Op::Xor {
            if let Some(z) = as_const(x.b) {
                return xor(x.a, konst(w, z ^ y));
            }
        }
    }
    mk(Op::Xor, w, a, b, 0, 0)
}
// ---- linear normal form: sum of coeff*atom + constant (modulo 2^w)
type Lin = (Vec<(E, u128)>, u128);
fn is_lin(e: E) -> bool {
    let x = n(e);
    matches!(x.op, Op::Add | Op::Sub) || x.op == Op::Mul && as_const(x.b).is_some()
}
fn lin_into(e: E, c: u128, w: u16, out: &mut Lin, fuel: &mut u32) {
    let m = mask(w);
    let x = n(e);
    if *fuel > 0 {
        *fuel -= 1;
        match x.op {
            Op::Const => {
                out.1 = out.1.wrapping_add(x.k.wrapping_mul(c)) & m;
                return;
            }
            Op::Add => {
                lin_into(x.a, c, w, out, fuel);
                lin_into(x.b, c, w, out, fuel);
                return;
            }
            Op::Sub => {
                lin_into(x.a, c, w, out, fuel);
                lin_into(x.b, c.wrapping_neg() & m, w, out, fuel);
                return;
            }
            Op::Mul => {
                if let Some(k) = as_const(x.b) {
                    lin_into(x.a, c.wrapping_mul(k) & m, w, out, fuel);
                    return;
                }
            }
            _ => {}
        }
    } else if x.op == Op::Const {
        out.1 = out.1.wrapping_add(x.k.wrapping_mul(c)) & m;
        return;
    }
    for t in out.0.iter_mut() {
        if t.0 == e {
            t.1 = t.1.wrapping_add(c) & m;
            return;
        }
    }
    out.0.push((e, c));
}
/// positive and negative parts (as expressions) and the constant
fn lin_parts(l: &mut Lin, w: u16) -> (Option<E>, Option<E>, u128) {
    l.0.retain(|t| t.1 != 0);
    l.0.sort();
    let (mut p, mut q): (Option<E>, Option<E>) = (None, None);
    let half = 1u128 << (w - 1);
    for (e, c) in &l.0 {
        let neg = *c >= half && *c != half;
        let k = if neg { c.wrapping_neg() & mask(w) } else { *c };
        let t = if k == 1 { *e } else { mk(Op::Mul, w, *e, konst(w, k), 0, 0) };
        let side = if neg { &mut q } else { &mut p };
        *side = Some(match *side {
            None => t,
            Some(s) => mk(Op::Add, w, s, t, 0, 0),
        });
    }
    (p, q, l.1)
}
fn lin_build(l: &mut Lin, w: u16) -> E {
    let (p, q, k) = lin_parts(l, w);
    let base = match (p, q) {
        (None, None) => return konst(w, k),
        (Some(p), None) => p,
        (None, Some(q)) => return mk(Op::Sub, w, konst(w, k), q, 0, 0),
        (Some(p), Some(q)) => mk(Op::Sub, w, p, q, 0, 0),
    };
    if k == 0 {
        base
    } else {
        mk(Op::Add, w, base, konst(w, k), 0, 0)
    }
}
fn lin_combine(a: E, b: E, minus: bool) -> E {
    let w = width(a);
    let mut l: Lin = (vec![], 0);
    let mut fuel = 64;
    lin_into(a, 1, w, &mut l, &mut fuel);
    lin_into(b, if minus { mask(w) } else { 1 }, w, &mut l, &mut fuel);
    lin_build(&mut l, w)
}

fn add_s(a: E, b: E) -> E {
    let (a, b) = comm(a, b);
    let w = width(a);
    if w == 1 {
        return xor(a, b);
    }
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, x.wrapping_add(y));
        }
        if y == 0 {
            return a;
        }
        let x = n(a);
        if x.op == Op::Add {
            if let Some(z) = as_const(x.b) {
                return add(x.a, konst(w, z.wrapping_add(y)));
            }
        }
        if x.op == Op::Ite {
            if let (Some(p), Some(q)) = (as_const(x.b), as_const(x.c)) {
                return ite(
                    x.a,
                    konst(w, p.wrapping_add(y)),
                    konst(w, q.wrapping_add(y)),
                );
            }
        }
        if is_lin(a) {
            return lin_combine(a, b, false);
        }
    } else if a == b || is_lin(a) || is_lin(b) {
        return lin_combine(a, b, false);
    }
    mk(Op::Add, w, a, b, 0, 0)
}
fn sub_s(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return konst(w, 0);
    }
    if let Some(y) = as_const(b) {
        return add(a, konst(w, y.wrapping_neg()));
    }
    if w == 1 {
        return xor(a, b);
    }
    if as_const(a).is_none() && (is_lin(a) || is_lin(b)) || as_const(a).is_some() && is_lin(b) {
        return lin_combine(a, b, true);
    }
    mk(Op::Sub, w, a, b, 0, 0)
}
fn mul_s(a: E, b: E) -> E {
    let (a, b) = comm(a, b);
    let w = width(a);
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, x.wrapping_mul(y));
        }
        if y == 0 {
            return b;
        }
        if y == 1 {
            return a;
        }
        if y.is_power_of_two() {
            return shl(a, konst(w, y.trailing_zeros() as u128));
        }
    }
    mk(Op::Mul, w, a, b, 0, 0)
}
fn udiv_s(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, fold2(Op::UDiv, w, x, y).unwrap());
        }
        if y == 1 {
            return a;
        }
        if y.is_power_of_two() {
            return lshr(a, konst(w, y.trailing_zeros() as u128));
        }
        let x = n(a);
        if x.op == Op::ZExt {
            let iw = width(x.a);
            if y <= mask(iw) {
                return zext(udiv(x.a, konst(iw, y)), w);
            }
            return konst(w, 0);
        }
    }
    mk(Op::UDiv, w, a, b, 0, 0)
}
fn urem_s(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, fold2(Op::URem, w, x, y).unwrap());
        }
        if y.is_power_of_two() {
            return and(a, konst(w, y - 1));
        }
        let x = n(a);
        if x.op == Op::ZExt {
            let iw = width(x.a);
            if y <= mask(iw) {
                return zext(urem(x.a, konst(iw, y)), w);
            }
            return a;
        }
    }
    mk(Op::URem, w, a, b, 0, 0)
}
fn sdiv_s(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(w, fold2(Op::SDiv, w, x, y).unwrap());
    }
    mk(Op::SDiv, w, a, b, 0, 0)
}
fn srem_s(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(w, fold2(Op::SRem, w, x, y).unwrap());
    }
    mk(Op::SRem, w, a, b, 0, 0)
}
fn shl_s(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, fold2(Op::Shl, w, x, y).unwrap());
        }
        if y == 0 {
            return a;
        }
        if y >= w as u128 {
            return konst(w, 0);
        }
        let k = y as u16;
        return concat(extract(a, 0, w - k), konst(k, 0));
    }
    mk(Op::Shl, w, a, b, 0, 0)
}
fn lshr_s(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, fold2(Op::LShr, w, x, y).unwrap());
        }
        if y == 0 {
            return a;
        }
        if y >= w as u128 {
            return konst(w, 0);
        }
        let k = y as u16;
        return zext(extract(a, k, w - k), w);
    }
    mk(Op::LShr, w, a, b, 0, 0)
}
fn ashr_s(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(w, fold2(Op::AShr, w, x, y).unwrap());
        }
        if y == 0 {
            return a;
        }
        let k = if y >= w as u128 { w - 1 } else { y as u16 };
        return sext(extract(a, k, w - k), w);
    }
    mk(Op::AShr, w, a, b, 0, 0)
}
fn concat_s(a: E, b: E) -> E {
    let (x, y) = (n(a), n(b));
    let w = x.w + y.w;
    if x.op == Op::Const && y.op == Op::Const && w <= 128 {
        return konst(w, (x.k << y.w) | y.k);
    }
    if x.op == Op::Const && x.k == 0 {
        return zext(b, w);
    }
    // adjacent extracts
    if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a && x.k == y.k + y.w as u128 {
        return extract(x.a, y.k as u16, w);
    }
    // extract(e, k, hi) . low part equal to full e
    if x.op == Op::Extract && x.a == b && x.k == y.w as u128 {
        // concat(extract(b..)) impossible widths; ignore
    }
    if y.op == Op::Concat {
        // (x . (p . q)) -> ((x . p) . q) when x.p merges
        let p = n(y.a);
        if x.op == Op::Extract && p.op == Op::Extract && x.a == p.a && x.k == p.k + p.w as u128
            || x.op == Op::Const && p.op == Op::Const
        {
            return concat(concat(a, y.a), y.b);
        }
    }
    if x.op == Op::Concat {
        let q = n(x.b);
        if q.op == Op::Extract && y.op == Op::Extract && q.a == y.a && q.k == y.k + y.w as u128
            || q.op == Op::Const && y.op == Op::Const
        {
            return concat(x.a, concat(x.b, b));
        }
    }
    if x.op == Op::ZExt {
        return zext(concat(x.a, b), w);
    }
    mk(Op::Concat, w, a, b, 0, 0)
}
/// How many of the low bits are constant (a lower bound).
fn known_low(e: E, fuel: &mut u32) -> u16 {
    if *fuel == 0 {
        return 0;
    }
    *fuel -= 1;
    let x = n(e);
    match x.op {
        Op::Const => x.w,
        Op::Concat => {
            let k = known_low(x.b, fuel);
            if k == width(x.b) {
                k + known_low(x.a, fuel)
            } else {
                k
            }
        }
        Op::ZExt => {
            let k = known_low(x.a, fuel);
            if k == width(x.a) {
                x.w
            } else {
                k
            }
        }
        Op::SExt => known_low(x.a, fuel),
        Op::Not => known_low(x.a, fuel),
        Op::Extract => known_low(x.a, fuel).saturating_sub(x.k as u16).min(x.w),
        Op::Add | Op::Sub | Op::Mul | Op::Xor | Op::And | Op::Or => {
            let k = known_low(x.a, fuel);
            if k == 0 {
                0
            } else {
                k.min(known_low(x.b, fuel))
            }
        }
        _ => 0,
    }
}
fn extract_s(a: E, lo: u16, w: u16) -> E {
    let x = n(a);
    debug_assert!(lo + w <= x.w && w > 0);
    if lo == 0 && w == x.w {
        return a;
    }
    match x.op {
        Op::Const => konst(w, x.k >> lo),
        Op::Extract => extract(x.a, lo + x.k as u16, w),
        Op::Concat => {
            let bw = width(x.b);
            if lo + w <= bw {
                extract(x.b, lo, w)
            } else if lo >= bw {
                extract(x.a, lo - bw, w)
            } else {
                concat(
                    extract(x.a, 0, lo + w - bw),
                    extract(x.b, lo, bw - lo),
                )
            }
        }
        Op::ZExt => {
            let iw = width(x.a);
            if lo >= iw {
                konst(w, 0)
            } else if lo + w <= iw {
                extract(x.a, lo, w)
            } else {
                zext(extract(x.a, lo, iw - lo), w)
            }
        }
        Op::SExt => {
            let iw = width(x.a);
            if lo + w <= iw {
                extract(x.a, lo, w)
            } else if lo < iw {
                sext(extract(x.a, lo, iw - lo), w)
            } else {
                sext(extract(x.a, iw - 1, 1), w)
            }
        }
        Op::And => and(extract(x.a, lo, w), extract(x.b, lo, w)),
        Op::Or => or(extract(x.a, lo, w), extract(x.b, lo, w)),
        Op::Xor => xor(extract(x.a, lo, w), extract(x.b, lo, w)),
        Op::Not => not(extract(x.a, lo, w)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            let (p, q) = (extract(x.a, 0, w), extract(x.b, 0, w));
            match x.op {
                Op::Add => add(p, q),
                Op::Sub => sub(p, q),
                _ => mul(p, q),
            }
        }
        Op::Ite if as_const(x.b).is_some() || as_const(x.c).is_some() => {
            ite(x.a, extract(x.b, lo, w), extract(x.c, lo, w))
        }
        // the bits up to lo + w may be known although the rest is not
        Op::Add | Op::Sub if known_low(a, &mut 40) >= lo + w => {
            let m = lo + w;
            let (p, q) = (extract(x.a, 0, m), extract(x.b, 0, m));
            let r = if x.op == Op::Add { add(p, q) } else { sub(p, q) };
            match as_const(r) {
                Some(k) => konst(w, k >> lo),
                None => mk(Op::Extract, w, a, 0, 0, lo as u128),
            }
        }
        _ => mk(Op::Extract, w, a, 0, 0, lo as u128),
    }
}
/// Byte `i` of `e` without simplification (memory keeps words recognisable).
pub fn raw_byte(e: E, i: u16) -> E {
    if width(e) == 8 {
        return e;
    }
    mk(Op::Extract, 8, e, 0, 0, (i * 8) as u128)
}
/// Re-simplify a node made by `raw_byte`.
pub fn simp_byte(e: E) -> E {
    let x = n(e);
    if x.op == Op::Extract {
        extract(x.a, x.k as u16, x.w)
    } else {
        e
    }
}
fn zext_s(a: E, w: u16) -> E {
    let x = n(a);
    debug_assert!(w >= x.w);
    if w == x.w {
        return a;
    }
    match x.op {
        Op::Const => konst(w, x.k),
        Op::ZExt => zext(x.a, w),
        Op::Ite if as_const(x.b).is_some() && as_const(x.c).is_some() => {
            ite(x.a, zext(x.b, w), zext(x.c, w))
        }
        _ => mk(Op::ZExt, w, a, 0, 0, 0),
    }
}
fn sext_s(a: E, w: u16) -> E {
    let x = n(a);
    if w == x.w {
        return a;
    }
    match x.op {
        Op::Const => konst(w, sext128(x.k, x.w) as u128),
        Op::SExt => sext(x.a, w),
        Op::ZExt => zext(a, w),
        Op::Ite if as_const(x.b).is_some() && as_const(x.c).is_some() => {
            ite(x.a, sext(x.b, w), sext(x.c, w))
        }
        _ => mk(Op::SExt, w, a, 0, 0, 0),
    }
}
fn eq_s(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let (a, b) = comm(a, b);
    let x = n(a);
    let y = n(b);
    if y.op == Op::Const {
        if x.op == Op::Const {
            return fls();
        }
        if x.w == 1 {
            return if y.k == 1 { a } else { not(a) };
        }
        match x.op {
            Op::ZExt => {
                let iw = width(x.a);
                if y.k > mask(iw) {
                    return fls();
                }
                return eq(x.a, konst(iw, y.k));
            }
            Op::SExt => {
                let iw = width(x.a);
                if (sext128(y.k & mask(iw), iw) as u128) & mask(x.w) != y.k {
                    return fls();
                }
                return eq(x.a, konst(iw, y.k));
            }
            Op::Concat => {
                let bw = width(x.b);
                let lo = eq(x.b, konst(bw, y.k));
                if as_const(lo) == Some(0) {
                    return lo;
                }
                let hi = eq(x.a, konst(x.w - bw, y.k >> bw));
                return and(hi, lo);
            }
            Op::Add => {
                if let Some(z) = as_const(x.b) {
                    return eq(x.a, konst(x.w, y.k.wrapping_sub(z)));
                }
            }
            Op::Xor => {
                if let Some(z) = as_const(x.b) {
                    return eq(x.a, konst(x.w, y.k ^ z));
                }
            }
            Op::Not => return eq(x.a, konst(x.w, !y.k)),
            Op::Sub => {
                if y.k == 0 {
                    return eq(x.a, x.b);
                }
            }
            Op::Ite => {
                let (p, q) = (as_const(x.b), as_const(x.c));
                if p.is_some() || q.is_some() {
                    let l = eq(x.b, b);
                    let r = eq(x.c, b);
                    return ite(x.a, l, r);
                }
            }
            Op::And => {
                if let Some(z) = as_const(x.b) {
                    if y.k & !z != 0 {
                        return fls();
                    }
                }
            }
            _ => {}
        }
    } else {
        if x.op == Op::ZExt && y.op == Op::ZExt && width(x.a) == width(y.a)
            || x.op == Op::SExt && y.op == Op::SExt && width(x.a) == width(y.a)
        {
            return eq(x.a, y.a);
        }
        if x.op == Op::Concat && y.op == Op::Concat && width(x.b) == width(y.b) {
            return and(eq(x.a, y.a), eq(x.b, y.b));
        }
        if x.w > 1 && (is_lin(a) || is_lin(b)) {
            let w = x.w;
            let mut l: Lin = (vec![], 0);
            let mut fuel = 64;
            lin_into(a, 1, w, &mut l, &mut fuel);
            lin_into(b, mask(w), w, &mut l, &mut fuel);
            let (p, q, k) = lin_parts(&mut l, w);
            // p - q + k == 0
            let (l, r) = match (p, q) {
                (None, None) => return konst(1, (k == 0) as u128),
                (Some(p), None) => (p, konst(w, k.wrapping_neg())),
                (None, Some(q)) => (q, konst(w, k)),
                (Some(p), Some(q)) => {
                    if k == 0 {
                        (p, q)
                    } else {
                        (p, lin_combine(q, konst(w, k.wrapping_neg()), false))
                    }
                }
            };
            if as_const(r).is_some() {
                return if is_lin(l) { let (l, r) = comm(l, r); mk(Op::Eq, 1, l, r, 0, 0) } else { eq(l, r) };
            }
            let (l, r) = comm(l, r);
            return mk(Op::Eq, 1, l, r, 0, 0);
        }
        if x.w == 1 && (n(a).op == Op::Not && n(a).a == b || n(b).op == Op::Not && n(b).a == a) {
            return fls();
        }
    }
    mk(Op::Eq, 1, a, b, 0, 0)
}
fn ult_s(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::Const && y.op == Op::Const {
        return konst(1, (x.k < y.k) as u128);
    }
    if y.op == Op::Const {
        if y.k == 0 {
            return fls();
        }
        if y.k == 1 {
            return eq(a, konst(x.w, 0));
        }
        if x.op == Op::ZExt {
            let iw = width(x.a);
            if y.k > mask(iw) {
                return tru();
            }
            return ult(x.a, konst(iw, y.k));
        }
        if x.op == Op::Ite && as_const(x.b).is_some() && as_const(x.c).is_some() {
            return ite(x.a, ult(x.b, b), ult(x.c, b));
        }
        if x.op == Op::URem {
            if let Some(m) = as_const(x.b) {
                if m != 0 && y.k >= m {
                    return tru();
                }
            }
        }
    }
    if x.op == Op::Const {
        if x.k == mask(x.w) {
            return fls();
        }
        if y.op == Op::ZExt {
            let iw = width(y.a);
            if x.k >= mask(iw) {
                return fls();
            }
            return ult(konst(iw, x.k), y.a);
        }
        if y.op == Op::Ite && as_const(y.b).is_some() && as_const(y.c).is_some() {
            return ite(y.a, ult(a, y.b), ult(a, y.c));
        }
        if x.k == 0 {
            return not(eq(b, a));
        }
    }
    if x.op == Op::ZExt && y.op == Op::ZExt && width(x.a) == width(y.a) {
        return ult(x.a, y.a);
    }
    mk(Op::Ult, 1, a, b, 0, 0)
}
fn ule_s(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::Const && y.op == Op::Const {
        return konst(1, (x.k <= y.k) as u128);
    }
    if y.op == Op::Const {
        if y.k == mask(y.w) {
            return tru();
        }
        return ult(a, konst(y.w, y.k + 1));
    }
    if x.op == Op::Const {
        if x.k == 0 {
            return tru();
        }
        return ult(konst(x.w, x.k - 1), b);
    }
    if x.op == Op::ZExt && y.op == Op::ZExt && width(x.a) == width(y.a) {
        return ule(x.a, y.a);
    }
    mk(Op::Ule, 1, a, b, 0, 0)
}
fn slt_s(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::Const && y.op == Op::Const {
        return konst(1, fold2(Op::Slt, x.w, x.k, y.k).unwrap());
    }
    if y.op == Op::Const && x.op == Op::Ite && as_const(x.b).is_some() && as_const(x.c).is_some() {
        return ite(x.a, slt(x.b, b), slt(x.c, b));
    }
    if x.op == Op::ZExt && y.op == Op::Const && x.w > width(x.a) {
        if sext128(y.k, y.w) < 0 {
            return fls();
        }
        return ult(a, b);
    }
    if y.op == Op::ZExt && x.op == Op::Const && y.w > width(y.a) {
        if sext128(x.k, x.w) < 0 {
            return tru();
        }
        return ult(a, b);
    }
    // sign test: a < 0
    if y.op == Op::Const && y.k == 0 {
        return extract(a, x.w - 1, 1);
    }
    if x.op == Op::Const && x.k == mask(x.w) {
        // -1 < b  <=> b >= 0
        return not(extract(b, y.w - 1, 1));
    }
    mk(Op::Slt, 1, a, b, 0, 0)
}
fn sle_s(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::Const && y.op == Op::Const {
        return konst(1, fold2(Op::Sle, x.w, x.k, y.k).unwrap());
    }
    if let Op::Const = y.op {
        let smax = mask(y.w) >> 1;
        if y.k == smax {
            return tru();
        }
        return slt(a, konst(y.w, y.k.wrapping_add(1)));
    }
    if let Op::Const = x.op {
        let smin = 1u128 << (x.w - 1);
        if x.k == smin {
            return tru();
        }
        return slt(konst(x.w, x.k.wrapping_sub(1)), b);
    }
    mk(Op::Sle, 1, a, b, 0, 0)
}
fn ite_s(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
        if a == c {
            return or(c, b);
        }
        if b == c {
            return and(c, a);
        }
    }
    let cn = n(c);
    if cn.op == Op::Not {
        return ite(cn.a, b, a);
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::Ite && x.a == c {
        return ite(c, x.b, b);
    }
    if y.op == Op::Ite && y.a == c {
        return ite(c, a, y.c);
    }
    mk(Op::Ite, w, c, a, b, 0)
}

pub fn bin(op: Op, a: E, b: E) -> E {
    match op {
        Op::And => and(a, b),
        Op::Or => or(a, b),
        Op::Xor => xor(a, b),
        Op::Add => add(a, b),
        Op::Sub => sub(a, b),
        Op::Mul => mul(a, b),
        Op::UDiv => udiv(a, b),
        Op::SDiv => sdiv(a, b),
        Op::URem => urem(a, b),
        Op::SRem => srem(a, b),
        Op::Shl => shl(a, b),
        Op::LShr => lshr(a, b),
        Op::AShr => ashr(a, b),
        Op::Eq => eq(a, b),
        Op::Ult => ult(a, b),
        Op::Ule => ule(a, b),
        Op::Slt => slt(a, b),
        Op::Sle => sle(a, b),
        _ => unreachable!(),
    }
}

// Floating-point operation codes.
pub const FP_ADD: u128 = 0;
pub const FP_SUB: u128 = 1;
pub const FP_MUL: u128 = 2;
pub const FP_DIV: u128 = 3;
pub const FP_LT: u128 = 10;
pub const FP_LE: u128 = 11;
pub const FP_EQ: u128 = 12;
pub const FP_NAN: u128 = 13;
pub const FP_FROM_U: u128 = 20;
pub const FP_FROM_S: u128 = 21;
pub const FP_TO_U: u128 = 22;
pub const FP_TO_S: u128 = 23;
pub const FP_RESIZE: u128 = 24;
pub const FP_FLOOR: u128 = 30;
pub const FP_CEIL: u128 = 31;
pub const FP_TRUNC: u128 = 32;
pub const FP_RNE: u128 = 33;
pub const FP_RNA: u128 = 34;
pub const FP_SQRT: u128 = 35;

fn fp_eval(k: u128, w: u16, wa: u16, a: u128, b: u128) -> u128 {
    let get = |x: u128| if wa == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
    let nan = |x: f64, w: u16| -> u128 {
        if x.is_nan() {
            return if w == 32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 };
        }
        if w == 32 {
            (x as f32).to_bits() as u128
        } else {
            x.to_bits() as u128
        }
    };
    match k {
        FP_ADD..=FP_DIV => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let z = match k {
                    FP_ADD => x + y,
                    FP_SUB => x - y,
                    FP_MUL => x * y,
                    _ => x / y,
                };
                return nan(z as f64, 32);
            }
            let (x, y) = (get(a), get(b));
            nan(
                match k {
                    FP_ADD => x + y,
                    FP_SUB => x - y,
                    FP_MUL => x * y,
                    _ => x / y,
                },
                w,
            )
        }
        FP_LT => (get(a) < get(b)) as u128,
        FP_LE => (get(a) <= get(b)) as u128,
        FP_EQ => (get(a) == get(b)) as u128,
        FP_NAN => get(a).is_nan() as u128,
        FP_FROM_U => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        FP_FROM_S => {
            let v = sext128(a, wa);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        FP_TO_U => (get(a) as u128).min(mask(w)),
        FP_TO_S => {
            let hi = (mask(w) >> 1) as i128;
            ((get(a) as i128).clamp(-hi - 1, hi) as u128) & mask(w)
        }
        FP_RESIZE => nan(get(a), w),
        FP_FLOOR => nan(get(a).floor(), w),
        FP_CEIL => nan(get(a).ceil(), w),
        FP_TRUNC => nan(get(a).trunc(), w),
        FP_RNE => nan(get(a).round_ties_even(), w),
        FP_RNA => nan(get(a).round(), w),
        FP_SQRT => {
            if w == 32 {
                nan(f32::from_bits(a as u32).sqrt() as f64, 32)
            } else {
                nan(get(a).sqrt(), w)
            }
        }
        _ => unreachable!(),
    }
}

/// Floating-point node over bit patterns; `w` is the width of the result.
pub fn fp(k: u128, w: u16, a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(w, fp_eval(k, w, width(a), x, y));
    }
    cx().has_fp = true;
    mk(Op::Fp, w, a, b, 0, k)
}

pub type Model = HashMap<u32, u128>;

/// Evaluate an expression under a model (missing variables are 0).
pub fn eval(e: E, m: &Model) -> u128 {
    let ctx = cx();
    ctx.ev_gen += 1;
    let len = ctx.nodes.len();
    if ctx.ev_stamp.len() < len {
        ctx.ev_stamp.resize(len * 2, 0);
        ctx.ev_val.resize(len * 2, 0);
    }
    let g = ctx.ev_gen;
    let mut stack = vec![e];
    while let Some(&t) = stack.last() {
        let ti = t as usize;
        if ctx.ev_stamp[ti] == g {
            stack.pop();
            continue;
        }
        let x = ctx.nodes[ti];
        let ready = |i: u32| ctx.ev_stamp[i as usize] == g;
        let kids: &[u32] = match x.op {
            Op::Const | Op::Var => &[],
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[x.a],
            Op::Ite => &[x.a, x.b, x.c],
            _ => &[x.a, x.b],
        };
        let mut ok = true;
        for &k in kids {
            if !ready(k) {
                stack.push(k);
                ok = false;
            }
        }
        if !ok {
            continue;
        }
        let v = |i: u32| ctx.ev_val[i as usize];
        let r = match x.op {
            Op::Const => x.k,
            Op::Var => *m.get(&(x.k as u32)).unwrap_or(&0) & mask(x.w),
            Op::Not => !v(x.a) & mask(x.w),
            Op::Extract => (v(x.a) >> x.k) & mask(x.w),
            Op::ZExt => v(x.a),
            Op::SExt => sext128(v(x.a), ctx.nodes[x.a as usize].w) as u128 & mask(x.w),
            Op::Concat => (v(x.a) << ctx.nodes[x.b as usize].w) | v(x.b),
            Op::Ite => {
                if v(x.a) == 1 {
                    v(x.b)
                } else {
                    v(x.c)
                }
            }
            Op::Fp => fp_eval(x.k, x.w, ctx.nodes[x.a as usize].w, v(x.a), v(x.b)),
            op => fold2(op, ctx.nodes[x.a as usize].w, v(x.a), v(x.b)).unwrap(),
        };
        ctx.ev_stamp[ti] = g;
        ctx.ev_val[ti] = r;
        stack.pop();
    }
    ctx.ev_val[e as usize]
}

pub fn children(x: &Node) -> Vec<u32> {
    match x.op {
        Op::Const | Op::Var => vec![],
        Op::Not | Op::Extract | Op::ZExt | Op::SExt => vec![x.a],
        Op::Ite => vec![x.a, x.b, x.c],
        _ => vec![x.a, x.b],
    }
}

/// Sorted set of variables occurring in an expression (cached per root).
pub fn vars_of(e: E) -> std::rc::Rc<Vec<u32>> {
    let ctx = cx();
    if let Some(v) = ctx.varsets.get(&e) {
        return v.clone();
    }
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    let mut st = vec![e];
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        let x = ctx.nodes[t as usize];
        if x.op == Op::Var {
            out.push(x.k as u32);
        } else {
            st.extend(children(&x));
        }
    }
    out.sort();
    out.dedup();
    let r = std::rc::Rc::new(out);
    ctx.varsets.insert(e, r.clone());
    r
}


// ---- audit: every simplification step can be handed to the SMT solver afterwards
pub struct Audit {
    pub on: bool,
    pub cap: usize,
    pub seen: std::collections::HashSet<(Op, u32, u32, u32, u128, u16)>,
    pub list: Vec<(E, E)>,
}
static mut AUDIT: Option<Audit> = None;
#[allow(static_mut_refs)]
pub fn audit_ctx() -> &'static mut Audit {
    unsafe { AUDIT.get_or_insert_with(|| Audit { on: false, cap: 0, seen: Default::default(), list: vec![] }) }
}
#[inline]
fn audit(op: Op, w: u16, a: u32, b: u32, c: u32, k: u128, r: E) {
    let au = audit_ctx();
    if !au.on || au.list.len() >= au.cap {
        return;
    }
    let x = n(r);
    if x.op == op && x.a == a && x.b == b && x.c == c && x.k == k && x.w == w {
        return;
    }
    if as_const(a).is_some() && (matches!(op, Op::Not | Op::Extract | Op::ZExt | Op::SExt) || as_const(b).is_some() && op != Op::Ite) {
        return; // constant folding
    }
    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && as_const(b) == Some(0) {
        return;
    }
    if !au.seen.insert((op, a, b, c, k, w)) {
        return;
    }
    let raw = mk(op, w, a, b, c, k);
    if raw != r {
        au.list.push((raw, r));
    }
}
pub fn and(a: E, b: E) -> E {
    let r = and_s(a, b);
    audit(Op::And, width(a), a, b, 0, 0, r);
    r
}
pub fn or(a: E, b: E) -> E {
    let r = or_s(a, b);
    audit(Op::Or, width(a), a, b, 0, 0, r);
    r
}
pub fn xor(a: E, b: E) -> E {
    let r = xor_s(a, b);
    audit(Op::Xor, width(a), a, b, 0, 0, r);
    r
}
pub fn add(a: E, b: E) -> E {
    let r = add_s(a, b);
    audit(Op::Add, width(a), a, b, 0, 0, r);
    r
}
pub fn sub(a: E, b: E) -> E {
    let r = sub_s(a, b);
    audit(Op::Sub, width(a), a, b, 0, 0, r);
    r
}
pub fn mul(a: E, b: E) -> E {
    let r = mul_s(a, b);
    audit(Op::Mul, width(a), a, b, 0, 0, r);
    r
}
pub fn udiv(a: E, b: E) -> E {
    let r = udiv_s(a, b);
    audit(Op::UDiv, width(a), a, b, 0, 0, r);
    r
}
pub fn urem(a: E, b: E) -> E {
    let r = urem_s(a, b);
    audit(Op::URem, width(a), a, b, 0, 0, r);
    r
}
pub fn sdiv(a: E, b: E) -> E {
    let r = sdiv_s(a, b);
    audit(Op::SDiv, width(a), a, b, 0, 0, r);
    r
}
pub fn srem(a: E, b: E) -> E {
    let r = srem_s(a, b);
    audit(Op::SRem, width(a), a, b, 0, 0, r);
    r
}
pub fn shl(a: E, b: E) -> E {
    let r = shl_s(a, b);
    audit(Op::Shl, width(a), a, b, 0, 0, r);
    r
}
pub fn lshr(a: E, b: E) -> E {
    let r = lshr_s(a, b);
    audit(Op::LShr, width(a), a, b, 0, 0, r);
    r
}
pub fn ashr(a: E, b: E) -> E {
    let r = ashr_s(a, b);
    audit(Op::AShr, width(a), a, b, 0, 0, r);
    r
}
pub fn concat(a: E, b: E) -> E {
    let r = concat_s(a, b);
    audit(Op::Concat, width(a) + width(b), a, b, 0, 0, r);
    r
}
pub fn eq(a: E, b: E) -> E {
    let r = eq_s(a, b);
    audit(Op::Eq, 1, a, b, 0, 0, r);
    r
}
pub fn ult(a: E, b: E) -> E {
    let r = ult_s(a, b);
    audit(Op::Ult, 1, a, b, 0, 0, r);
    r
}
pub fn ule(a: E, b: E) -> E {
    let r = ule_s(a, b);
    audit(Op::Ule, 1, a, b, 0, 0, r);
    r
}
pub fn slt(a: E, b: E) -> E {
    let r = slt_s(a, b);
    audit(Op::Slt, 1, a, b, 0, 0, r);
    r
}
pub fn sle(a: E, b: E) -> E {
    let r = sle_s(a, b);
    audit(Op::Sle, 1, a, b, 0, 0, r);
    r
}
pub fn not(a: E) -> E {
    let r = not_s(a);
    audit(Op::Not, width(a), a, 0, 0, 0, r);
    r
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    let r = extract_s(a, lo, w);
    audit(Op::Extract, w, a, 0, 0, lo as u128, r);
    r
}
pub fn zext(a: E, w: u16) -> E {
    let r = zext_s(a, w);
    if w > width(a) {
        audit(Op::ZExt, w, a, 0, 0, 0, r);
    }
    r
}
pub fn sext(a: E, w: u16) -> E {
    let r = sext_s(a, w);
    if w > width(a) {
        audit(Op::SExt, w, a, 0, 0, 0, r);
    }
    r
}
pub fn ite(c: E, a: E, b: E) -> E {
    let r = ite_s(c, a, b);
    audit(Op::Ite, width(a), c, a, b, 0, r);
    r
}

#[cfg(test)]
mod tests {
    use super::*;
    /// Simplifiers must agree with direct evaluation.
    #[test]
    fn simplify_agrees_with_eval() {
        let mut r = 88172645463325252u64;
        let mut rnd = move || {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            r
        };
        for w in [1u16, 8, 13, 32, 64] {
            for _ in 0..3000 {
                let vs: Vec<(E, u32)> = (0..3)
                    .map(|_| {
                        let e = var("t", w);
                        (e, n(e).k as u32)
                    })
                    .collect();
                let mut m = Model::new();
                for v in &vs {
                    let x = match rnd() % 4 {
                        0 => 0,
                        1 => mask(w),
                        2 => rnd() as u128 % 4,
                        _ => rnd() as u128,
                    };
                    m.insert(v.1, x & mask(w));
                }
                let mut pool: Vec<(E, u128)> = vs.iter().map(|v| (v.0, m[&v.1])).collect();
                for _ in 0..12 {
                    let k = match rnd() % 3 {
                        0 => rnd() as u128 % 5,
                        1 => mask(w).wrapping_sub(rnd() as u128 % 3),
                        _ => rnd() as u128,
                    } & mask(w);
                    if rnd() % 4 == 0 {
                        pool.push((konst(w, k), k));
                    }
                    let a = pool[rnd() as usize % pool.len()];
                    let b = pool[rnd() as usize % pool.len()];
                    let ops = [Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::UDiv, Op::URem, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
                    let op = ops[rnd() as usize % ops.len()];
                    if matches!(op, Op::UDiv | Op::URem) && b.1 == 0 {
                        continue;
                    }
                    let e = bin(op, a.0, b.0);
                    let want = fold2(op, w, a.1, b.1);
                    let got = eval(e, &m);
                    if let Some(x) = want {
                        let x = if width(e) == 1 { x & 1 } else { x & mask(w) };
                        assert_eq!(got, x, "{:?} w={} {:?} {:?}", op, w, a, b);
                    }
                    if width(e) == w {
                        pool.push((e, got));
                        if w >= 8 {
                            let lo = (rnd() % (w as u64 - 1)) as u16;
                            let ww = 1 + (rnd() % (w as u64 - lo as u64)) as u16;
                            let x = extract(e, lo, ww);
                            assert_eq!(eval(x, &m), (got >> lo) & mask(ww));
                            let z = zext(x, w);
                            pool.push((z, (got >> lo) & mask(ww)));
                            let sx = sext(x, w);
                            pool.push((sx, sext128((got >> lo) & mask(ww), ww) as u128 & mask(w)));
                            assert_eq!(eval(sx, &m), pool.last().unwrap().1);
                        }
                    } else {
                        let c = pool[rnd() as usize % pool.len()];
                        let d = pool[rnd() as usize % pool.len()];
                        let i = ite(e, c.0, d.0);
                        let v = if got == 1 { c.1 } else { d.1 };
                        assert_eq!(eval(i, &m), v);
                        pool.push((i, v));
                    }
                }
            }
        }
    }
}
