//! LLVM textual IR: indexing, lazy parsing into a compact executable form.
use crate::expr::E;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    I(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
    Label,
    Func,
}

impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::I(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::St(_, true) => 1,
            Ty::St(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vec(..) => self.store_size().next_power_of_two().min(16),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(n) => ((*n as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(..) => self.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::St(f, packed) => {
                let mut off = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Arr(n, t) => n * t.size(),
            _ => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::St(f, packed) => {
                let mut off = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.store_size() * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::St(f, _) => f[i].clone(),
            Ty::Arr(_, t) => (**t).clone(),
            Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::St(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u128),
    E(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    AddrSpace,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    UIncWrap,
    UDecWrap,
    USubCond,
    USubSat,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord {
    NotAtomic,
    Unordered,
    Monotonic,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}
impl Ord {
    pub fn acq(self) -> bool {
        matches!(self, Ord::Acquire | Ord::AcqRel | Ord::SeqCst)
    }
    pub fn rel(self) -> bool {
        matches!(self, Ord::Release | Ord::AcqRel | Ord::SeqCst)
    }
    pub fn atomic(self) -> bool {
        self != Ord::NotAtomic
    }
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opnd),
    Asm(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Clause {
    Cleanup,
    Catch,
    Filter,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(crate::expr::Op, Ty, Opnd, Opnd),
    FBin(FOp, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    ICmp(Pred, Ty, Opnd, Opnd),
    FCmp(String, Ty, Opnd, Opnd),
    Select(Ty, Ty, Opnd, Opnd, Opnd),
    Cast(Cast, Ty, Opnd, Ty),
    Load(Ty, Opnd, Ord),
    Store(Ty, Opnd, Opnd, Ord),
    Gep(Opnd, i128, Vec<(Opnd, u16, u64)>),
    Alloca(u64, Opnd, u64),
    Call(Callee, Ty, Vec<(Ty, Opnd)>, Option<(u32, u32)>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Resume(Opnd),
    LandingPad(Vec<Clause>),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Opnd, Vec<u32>),
    ExtractElement(Opnd, Opnd),
    InsertElement(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<i64>),
    AtomicRmw(Rmw, Ty, Opnd, Opnd, Ord),
    CmpXchg(Ty, Opnd, Opnd, Opnd, Ord, Ord),
    Fence(Ord),
    Freeze(Opnd),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX: none
    pub i: I,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<(Ty, Option<u64>)>, // byval size
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnInfo {
    pub name: String,
    pub def: Option<(usize, usize)>, // byte range of the definition text
    pub weak: bool,
    pub parsed: RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: String,
    pub line: (usize, usize),
    pub is_const: bool,
    pub external: bool,
    pub weak: bool,
    pub tls: bool,
    pub section: Option<String>,
    pub addr: u64,
    pub init: RefCell<Option<Rc<(u64, Vec<u8>)>>>, // align, bytes
}

pub struct Module {
    pub text: String,
    pub fns: Vec<FnInfo>,
    pub fn_ids: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_ids: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    /// section name -> (slot base address, bytes size, member global ids with offsets)
    pub sections: HashMap<String, (u64, u64, Vec<(u32, u64)>)>,
}

pub const FN_BASE: u64 = 0x2000_0000;
pub const SLOT_BITS: u32 = 24;
pub const SLOT_OFF: u64 = 0x1_0010; // base offset within a slot: 16-aligned, not more
pub fn slot_base(slot: u64, align: u64) -> u64 {
    let o = if align <= 16 { SLOT_OFF } else { (SLOT_OFF + align - 1) / align * align };
    (slot << SLOT_BITS) + o
}
/// global slots start here (below are functions)
pub const GLOBAL_SLOT0: u64 = 0x1000;

pub type PResult<T> = Result<T, String>;

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Int(i128),
    Str(Vec<u8>),
    P(u8),
    Meta(String),
    Attr,
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn is_ident(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> PResult<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = String::from_utf8_lossy(&unescape(&b[i + 2..j])).to_string();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && is_ident(b[j]) {
                        j += 1
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_ident(b[j]) {
                    j += 1
                }
                out.push(Tok::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1
                }
                out.push(Tok::Attr);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'.' if b[i..].starts_with(b"...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len()
                    && (b[j].is_ascii_alphanumeric()
                        || b[j] == b'.'
                        || (b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e') && b[i + 1] != b'x')
                {
                    j += 1
                }
                let t = &s[i..j];
                if let Ok(v) = t.parse::<i128>() {
                    out.push(Tok::Int(v));
                } else if let Ok(v) = t.parse::<u128>() {
                    out.push(Tok::Int(v as i128));
                } else {
                    out.push(Tok::Word(t.to_string()));
                }
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && (is_ident(b[j])) {
                    j += 1
                }
                out.push(Tok::Word(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- parser

pub enum Const {
    Int(u128),
    Agg(Vec<Const>),
    Bytes(Vec<u8>),
    Zero,
    Undef,
}

pub struct P<'m> {
    pub m: &'m Module,
    pub t: Vec<Tok>,
    pub i: usize,
    pub regs: Option<&'m RefCell<HashMap<String, u32>>>,
    pub labels: Option<&'m RefCell<HashMap<String, u32>>>,
}

impl<'m> P<'m> {
    pub fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn err<T>(&self, s: &str) -> PResult<T> {
        Err(format!("{} at token {} of {:?}", s, self.i, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]))
    }
    fn next(&mut self) -> PResult<Tok> {
        if self.i >= self.t.len() {
            return self.err("unexpected end");
        }
        self.i += 1;
        Ok(self.t[self.i - 1].clone())
    }
    fn is_p(&self, c: u8) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want_p(&mut self, c: u8) -> PResult<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", c as char))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> PResult<String> {
        match self.next()? {
            Tok::Word(w) => Ok(w),
            _ => {
                self.i -= 1;
                self.err("expected word")
            }
        }
    }
    fn int(&mut self) -> PResult<i128> {
        match self.next()? {
            Tok::Int(v) => Ok(v),
            _ => {
                self.i -= 1;
                self.err("expected int")
            }
        }
    }
    pub fn ty_opt(&mut self) -> PResult<Option<Ty>> {
        let save = self.i;
        let t = match self.peek() {
            Some(Tok::Word(w)) => {
                let w = w.clone();
                if w == "void" {
                    Some(Ty::Void)
                } else if w == "ptr" {
                    self.i += 1;
                    if self.eat_w("addrspace") {
                        self.want_p(b'(')?;
                        self.int()?;
                        self.want_p(b')')?;
                    }
                    return Ok(Some(Ty::Ptr));
                } else if w == "float" {
                    Some(Ty::F32)
                } else if w == "double" {
                    Some(Ty::F64)
                } else if w == "metadata" {
                    Some(Ty::Meta)
                } else if w == "label" {
                    Some(Ty::Label)
                } else if w == "half" || w == "bfloat" {
                    Some(Ty::I(16))
                } else if w == "fp128" || w == "x86_fp80" {
                    Some(Ty::I(128))
                } else if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                    Some(Ty::I(w[1..].parse().map_err(|_| "int width".to_string())?))
                } else {
                    None
                }
            }
            Some(Tok::P(b'[')) => {
                self.i += 1;
                let n = self.int()?;
                if !self.eat_w("x") {
                    self.i = save;
                    return Ok(None);
                }
                let t = self.ty()?;
                self.want_p(b']')?;
                return Ok(Some(Ty::Arr(n as u64, Rc::new(t))));
            }
            Some(Tok::P(b'{')) => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat_p(b'}') {
                    v.push(self.ty()?);
                    self.eat_p(b',');
                }
                return Ok(Some(Ty::St(Rc::new(v), false)));
            }
            Some(Tok::P(b'<')) => {
                self.i += 1;
                if self.eat_p(b'{') {
                    let mut v = vec![];
                    while !self.eat_p(b'}') {
                        v.push(self.ty()?);
                        self.eat_p(b',');
                    }
                    self.want_p(b'>')?;
                    return Ok(Some(Ty::St(Rc::new(v), true)));
                }
                let n = self.int()?;
                if !self.eat_w("x") {
                    return self.err("vector type");
                }
                let t = self.ty()?;
                self.want_p(b'>')?;
                return Ok(Some(Ty::Vec(n as u32, Rc::new(t))));
            }
            Some(Tok::Local(n)) => {
                let n = n.clone();
                match self.m.types.get(&n) {
                    Some(t) => Some(t.clone()),
                    None => None,
                }
            }
            _ => None,
        };
        if t.is_some() {
            self.i += 1;
        }
        Ok(t)
    }
    pub fn ty(&mut self) -> PResult<Ty> {
        match self.ty_opt()? {
            Some(t) => Ok(t),
            None => self.err("expected type"),
        }
    }

    /// skip parameter / return attributes; returns byval/sret type size if byval seen
    fn attrs(&mut self) -> PResult<Option<u64>> {
        let mut byval = None;
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    let known = matches!(
                        w.as_str(),
                        "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext"
                            | "inreg" | "returned" | "nocapture" | "immarg" | "dead_on_unwind" | "writable" | "allocptr" | "allocalign"
                            | "swiftself" | "nest" | "noext" | "dead_on_return" | "dso_local" | "local_unnamed_addr" | "unnamed_addr"
                            | "dso_preemptable" | "hidden" | "protected" | "default" | "nosync"
                    );
                    let withp = matches!(
                        w.as_str(),
                        "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "elementtype" | "range" | "captures"
                            | "initializes" | "nofpclass" | "memory" | "inalloca" | "preallocated" | "alignstack"
                    );
                    if known {
                        self.i += 1;
                        // dead_on_return may take an argument
                        if w == "dead_on_return" && self.is_p(b'(') {
                            self.skip_parens()?;
                        }
                    } else if w == "align" {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_parens()?;
                        } else {
                            self.int()?;
                        }
                    } else if withp {
                        self.i += 1;
                        if w == "byval" {
                            self.want_p(b'(')?;
                            let t = self.ty()?;
                            byval = Some(t.size());
                            self.want_p(b')')?;
                        } else if self.is_p(b'(') {
                            self.skip_parens()?;
                        }
                    } else {
                        return Ok(byval);
                    }
                }
                Some(Tok::Str(_)) => {
                    // "string-attr"="value"
                    self.i += 1;
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(byval),
            }
        }
    }
    fn skip_parens(&mut self) -> PResult<()> {
        self.want_p(b'(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }

    fn reg(&self, n: &str) -> u32 {
        let mut r = self.regs.unwrap().borrow_mut();
        let k = r.len() as u32;
        *r.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self) -> PResult<u32> {
        if !self.eat_w("label") {
            return self.err("expected label");
        }
        match self.next()? {
            Tok::Local(n) => self.label_id(&n),
            _ => self.err("expected label name"),
        }
    }
    fn label_id(&self, n: &str) -> PResult<u32> {
        self.labels
            .unwrap()
            .borrow()
            .get(n)
            .copied()
            .ok_or_else(|| format!("unknown label {}", n))
    }

    pub fn opnd(&mut self, ty: &Ty) -> PResult<Opnd> {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opnd::R(self.reg(&n)));
        }
        let c = self.konst(ty)?;
        Ok(Opnd::V(const_val(&c, ty)))
    }

    pub fn konst(&mut self, ty: &Ty) -> PResult<Const> {
        let tok = self.next()?;
        match tok {
            Tok::Int(v) => match ty {
                Ty::I(w) => Ok(Const::Int(v as u128 & crate::expr::mask(*w))),
                Ty::F64 => Ok(Const::Int((v as f64).to_bits() as u128)),
                Ty::F32 => Ok(Const::Int((v as f32).to_bits() as u128)),
                _ => self.err("int constant of non-int type"),
            },
            Tok::Str(b) => Ok(Const::Bytes(b)),
            Tok::Global(n) => Ok(Const::Int(self.m.addr_of(&n)? as u128)),
            Tok::P(b'<') => {
                let packed = self.eat_p(b'{');
                let mut v = vec![];
                let end = if packed { b'}' } else { b'>' };
                while !self.eat_p(end) {
                    let t = self.ty()?;
                    v.push(self.konst(&t)?);
                    self.eat_p(b',');
                }
                if packed {
                    self.want_p(b'>')?;
                }
                Ok(Const::Agg(v))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !self.eat_p(b'}') {
                    let t = self.ty()?;
                    v.push(self.konst(&t)?);
                    self.eat_p(b',');
                }
                Ok(Const::Agg(v))
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                while !self.eat_p(b']') {
                    let t = self.ty()?;
                    v.push(self.konst(&t)?);
                    self.eat_p(b',');
                }
                Ok(Const::Agg(v))
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(Const::Int(1)),
                "false" => Ok(Const::Int(0)),
                "null" => Ok(Const::Int(0)),
                "none" => Ok(Const::Int(0)),
                "zeroinitializer" => Ok(Const::Zero),
                "undef" | "poison" => Ok(Const::Undef),
                "splat" => {
                    self.want_p(b'(')?;
                    let t = self.ty()?;
                    let c = self.konst(&t)?;
                    self.want_p(b')')?;
                    let v = match &c {
                        Const::Int(v) => *v,
                        _ => 0,
                    };
                    Ok(Const::Agg((0..ty.count()).map(|_| Const::Int(v)).collect()))
                }
                "getelementptr" => {
                    while self.eat_w("inbounds") || self.eat_w("nuw") || self.eat_w("nusw") || self.is_w("inrange") {
                        if self.eat_w("inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.want_p(b'(')?;
                    let st = self.ty()?;
                    self.want_p(b',')?;
                    let bt = self.ty()?;
                    let b = cint(&self.konst(&bt)?)?;
                    let mut off = 0i128;
                    let mut cur = st.clone();
                    let mut first = true;
                    while self.eat_p(b',') {
                        let it = self.ty()?;
                        let k = crate::expr::sext128(cint(&self.konst(&it)?)?, it.bits());
                        if first {
                            off += k * st.size() as i128;
                            first = false;
                        } else {
                            match &cur {
                                Ty::St(..) => {
                                    off += cur.field_offset(k as usize) as i128;
                                    cur = cur.elem(k as usize);
                                }
                                _ => {
                                    let e = cur.elem(0);
                                    off += k * e.size() as i128;
                                    cur = e;
                                }
                            }
                        }
                    }
                    self.want_p(b')')?;
                    Ok(Const::Int((b as i128 + off) as u64 as u128))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "ptrtoaddr" => {
                    self.want_p(b'(')?;
                    let t = self.ty()?;
                    let v = cint(&self.konst(&t)?)?;
                    if !self.eat_w("to") {
                        return self.err("expected to");
                    }
                    let t2 = self.ty()?;
                    self.want_p(b')')?;
                    Ok(Const::Int(v & crate::expr::mask(t2.bits())))
                }
                "add" | "sub" | "xor" | "mul" => {
                    while self.eat_w("nuw") || self.eat_w("nsw") {}
                    self.want_p(b'(')?;
                    let t = self.ty()?;
                    let a = cint(&self.konst(&t)?)?;
                    self.want_p(b',')?;
                    let t2 = self.ty()?;
                    let b = cint(&self.konst(&t2)?)?;
                    self.want_p(b')')?;
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Ok(Const::Int(r & crate::expr::mask(t.bits())))
                }
                _ => {
                    // floats
                    if let Some(h) = w.strip_prefix("0x") {
                        let h = h.trim_start_matches(|c| c == 'K' || c == 'L' || c == 'M' || c == 'H');
                        let bits = u128::from_str_radix(h, 16).map_err(|e| format!("float {} {}", w, e))?;
                        return Ok(Const::Int(match ty {
                            Ty::F32 => (f64::from_bits(bits as u64) as f32).to_bits() as u128,
                            _ => bits,
                        }));
                    }
                    if let Ok(f) = w.parse::<f64>() {
                        return Ok(Const::Int(match ty {
                            Ty::F32 => (f as f32).to_bits() as u128,
                            _ => f.to_bits() as u128,
                        }));
                    }
                    self.i -= 1;
                    self.err("unknown constant")
                }
            },
            Tok::P(c) if (c == b'+' || c == b'-') && matches!(self.peek(), Some(Tok::Word(w)) if w == "inf" || w == "nan" || w == "qnan") => {
                let w = self.next()?;
                let v: f64 = if matches!(&w, Tok::Word(w) if w == "inf") { f64::INFINITY } else { f64::NAN };
                let v = if c == b'-' { -v } else { v };
                Ok(Const::Int(match ty {
                    Ty::F32 => (v as f32).to_bits() as u128,
                    _ => v.to_bits() as u128,
                }))
            }
            _ => {
                self.i -= 1;
                self.err("unknown constant token")
            }
        }
    }

    fn typed_opnd(&mut self) -> PResult<(Ty, Opnd)> {
        let t = self.ty()?;
        self.attrs()?;
        let o = self.opnd(&t)?;
        Ok((t, o))
    }

    fn ordering(&mut self) -> PResult<Ord> {
        if self.eat_w("syncscope") {
            self.skip_parens()?;
        }
        let w = self.word()?;
        Ok(match w.as_str() {
            "unordered" => Ord::Unordered,
            "monotonic" => Ord::Monotonic,
            "acquire" => Ord::Acquire,
            "release" => Ord::Release,
            "acq_rel" => Ord::AcqRel,
            "seq_cst" => Ord::SeqCst,
            _ => return self.err("ordering"),
        })
    }

    fn call_tail(&mut self, unwind: bool) -> PResult<I> {
        // optional fast-math/cc/attrs, ret type, callee, args
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    if matches!(
                        w.as_str(),
                        "fastcc" | "coldcc" | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "swiftcc"
                            | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast"
                    ) {
                        self.i += 1;
                    } else if w == "cc" {
                        self.i += 1;
                        self.int()?;
                    } else if w == "addrspace" {
                        self.i += 1;
                        self.skip_parens()?;
                    } else {
                        let s = self.i;
                        self.attrs()?;
                        if self.i == s {
                            break;
                        }
                    }
                }
                _ => {
                    let s = self.i;
                    self.attrs()?;
                    if self.i == s {
                        break;
                    }
                }
            }
        }
        let rt = self.ty()?;
        // function type signature for varargs: ret (args...)
        if self.is_p(b'(') {
            self.skip_parens()?;
        }
        let callee = match self.next()? {
            Tok::Global(n) => Callee::Fn(self.m.fn_id(&n)?),
            Tok::Local(n) => Callee::Ptr(Opnd::R(self.reg(&n))),
            Tok::Word(w) if w == "asm" => {
                while self.eat_w("sideeffect") || self.eat_w("alignstack") || self.eat_w("inteldialect") || self.eat_w("unwind") {}
                let s = match self.next()? {
                    Tok::Str(s) => String::from_utf8_lossy(&s).to_string(),
                    _ => return self.err("asm string"),
                };
                self.want_p(b',')?;
                self.next()?;
                Callee::Asm(s)
            }
            Tok::Word(_) => {
                self.i -= 1;
                let c = self.konst(&Ty::Ptr)?;
                Callee::Ptr(Opnd::V(const_val(&c, &Ty::Ptr)))
            }
            _ => {
                self.i -= 1;
                return self.err("callee");
            }
        };
        self.want_p(b'(')?;
        let mut args = vec![];
        while !self.eat_p(b')') {
            let t = self.ty()?;
            if t == Ty::Meta {
                // metadata argument: skip until , or ) at depth 0
                let mut d = 0;
                loop {
                    match self.peek() {
                        Some(Tok::P(b'(')) => d += 1,
                        Some(Tok::P(b')')) if d == 0 => break,
                        Some(Tok::P(b')')) => d -= 1,
                        Some(Tok::P(b',')) if d == 0 => break,
                        None => return self.err("metadata arg"),
                        _ => {}
                    }
                    self.i += 1;
                }
                self.eat_p(b',');
                args.push((Ty::Meta, Opnd::V(Val::C(0))));
                continue;
            }
            self.attrs()?;
            let o = self.opnd(&t)?;
            args.push((t, o));
            self.eat_p(b',');
        }
        let mut uw = None;
        if unwind {
            // skip attrs / operand bundles up to "to label"
            while !self.is_w("to") {
                if self.peek().is_none() {
                    return self.err("invoke without labels");
                }
                self.i += 1;
            }
            self.i += 1;
            let n = self.label()?;
            if !self.eat_w("unwind") {
                return self.err("expected unwind");
            }
            let u = self.label()?;
            uw = Some((n, u));
        }
        Ok(I::Call(callee, rt, args, uw))
    }

    fn inst(&mut self, head: &str) -> PResult<I> {
        use crate::expr::Op;
        let bin = |op| -> Option<Op> {
            Some(match op {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                _ => return None,
            })
        };
        if let Some(op) = bin(head) {
            while self.eat_w("nuw") || self.eat_w("nsw") || self.eat_w("exact") || self.eat_w("disjoint") {}
            let t = self.ty()?;
            let a = self.opnd(&t)?;
            self.want_p(b',')?;
            let b = self.opnd(&t)?;
            return Ok(I::Bin(op, t, a, b));
        }
        let fmf = |p: &mut Self| {
            while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|w| p.eat_w(w)) {}
        };
        match head {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                fmf(self);
                let t = self.ty()?;
                let a = self.opnd(&t)?;
                self.want_p(b',')?;
                let b = self.opnd(&t)?;
                let op = match head {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Ok(I::FBin(op, t, a, b))
            }
            "fneg" => {
                fmf(self);
                let t = self.ty()?;
                let a = self.opnd(&t)?;
                Ok(I::FNeg(t, a))
            }
            "icmp" => {
                self.eat_w("samesign");
                let p = match self.word()?.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.err("icmp pred"),
                };
                let t = self.ty()?;
                let a = self.opnd(&t)?;
                self.want_p(b',')?;
                let b = self.opnd(&t)?;
                Ok(I::ICmp(p, t, a, b))
            }
            "fcmp" => {
                fmf(self);
                let p = self.word()?;
                let t = self.ty()?;
                let a = self.opnd(&t)?;
                self.want_p(b',')?;
                let b = self.opnd(&t)?;
                Ok(I::FCmp(p, t, a, b))
            }
            "select" => {
                fmf(self);
                let (ct, c) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (t, a) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, b) = self.typed_opnd()?;
                Ok(I::Select(ct, t, c, a, b))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc"
            | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                while self.eat_w("nuw") || self.eat_w("nsw") || self.eat_w("nneg") {}
                fmf(self);
                let (t, a) = self.typed_opnd()?;
                if !self.eat_w("to") {
                    return self.err("cast: expected to");
                }
                let t2 = self.ty()?;
                let c = match head {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::Bitcast,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    _ => Cast::AddrSpace,
                };
                Ok(I::Cast(c, t, a, t2))
            }
            "load" => {
                let at = self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty()?;
                self.want_p(b',')?;
                let (_, p) = self.typed_opnd()?;
                let o = if at { self.ordering()? } else { Ord::NotAtomic };
                Ok(I::Load(t, p, o))
            }
            "store" => {
                let at = self.eat_w("atomic");
                self.eat_w("volatile");
                let (t, v) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, p) = self.typed_opnd()?;
                let o = if at { self.ordering()? } else { Ord::NotAtomic };
                Ok(I::Store(t, v, p, o))
            }
            "getelementptr" => {
                while self.eat_w("inbounds") || self.eat_w("nuw") || self.eat_w("nusw") {}
                let st = self.ty()?;
                self.want_p(b',')?;
                let (bt, b) = self.typed_opnd()?;
                if matches!(bt, Ty::Vec(..)) {
                    return self.err("vector gep");
                }
                let mut off = 0i128;
                let mut dynv = vec![];
                let mut cur = st.clone();
                let mut first = true;
                while self.is_p(b',') {
                    if let Some(Tok::Meta(_)) = self.t.get(self.i + 1) {
                        break;
                    }
                    self.i += 1;
                    let (it, io) = self.typed_opnd()?;
                    let scale;
                    if first {
                        scale = st.size();
                        first = false;
                    } else if let Ty::St(..) = &cur {
                        let k = match io {
                            Opnd::V(Val::C(k)) => k as usize,
                            _ => return self.err("gep struct index"),
                        };
                        off += cur.field_offset(k) as i128;
                        cur = cur.elem(k);
                        continue;
                    } else {
                        let e = cur.elem(0);
                        scale = e.size();
                        cur = e;
                    }
                    match io {
                        Opnd::V(Val::C(k)) => off += crate::expr::sext128(k, it.bits()) * scale as i128,
                        o => dynv.push((o, it.bits(), scale)),
                    }
                }
                Ok(I::Gep(b, off, dynv))
            }
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut cnt = Opnd::V(Val::C(1));
                let mut al = t.align();
                while self.eat_p(b',') {
                    if self.eat_w("align") {
                        al = self.int()? as u64;
                    } else if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    } else {
                        let (_, c) = self.typed_opnd()?;
                        cnt = c;
                    }
                }
                Ok(I::Alloca(t.size(), cnt, al))
            }
            "tail" | "musttail" | "notail" => {
                if !self.eat_w("call") {
                    return self.err("expected call");
                }
                self.call_tail(false)
            }
            "call" => self.call_tail(false),
            "invoke" => self.call_tail(true),
            "br" => {
                if self.is_w("label") {
                    Ok(I::Br(self.label()?))
                } else {
                    let (_, c) = self.typed_opnd()?;
                    self.want_p(b',')?;
                    let a = self.label()?;
                    self.want_p(b',')?;
                    let b = self.label()?;
                    Ok(I::CondBr(c, a, b))
                }
            }
            "switch" => {
                let (t, v) = self.typed_opnd()?;
                self.want_p(b',')?;
                let d = self.label()?;
                self.want_p(b'[')?;
                let mut cases = vec![];
                while !self.eat_p(b']') {
                    let ct = self.ty()?;
                    let k = cint(&self.konst(&ct)?)?;
                    self.want_p(b',')?;
                    let l = self.label()?;
                    cases.push((k, l));
                }
                Ok(I::Switch(t, v, d, cases))
            }
            "ret" => {
                if self.eat_w("void") {
                    Ok(I::Ret(None))
                } else {
                    let (_, v) = self.typed_opnd()?;
                    Ok(I::Ret(Some(v)))
                }
            }
            "unreachable" => Ok(I::Unreachable),
            "resume" => {
                let (_, v) = self.typed_opnd()?;
                Ok(I::Resume(v))
            }
            "landingpad" => {
                self.ty()?;
                let mut cl = vec![];
                loop {
                    if self.eat_w("cleanup") {
                        cl.push(Clause::Cleanup);
                    } else if self.eat_w("catch") {
                        let t = self.ty()?;
                        self.konst(&t)?;
                        cl.push(Clause::Catch);
                    } else if self.eat_w("filter") {
                        let t = self.ty()?;
                        self.konst(&t)?;
                        cl.push(Clause::Filter);
                    } else {
                        break;
                    }
                }
                Ok(I::LandingPad(cl))
            }
            "extractvalue" => {
                let (_, v) = self.typed_opnd()?;
                let mut ix = vec![];
                while self.eat_p(b',') {
                    if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    }
                    ix.push(self.int()? as u32);
                }
                Ok(I::ExtractValue(v, ix))
            }
            "insertvalue" => {
                let (t, v) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, e) = self.typed_opnd()?;
                let mut ix = vec![];
                while self.eat_p(b',') {
                    if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    }
                    ix.push(self.int()? as u32);
                }
                Ok(I::InsertValue(t, v, e, ix))
            }
            "extractelement" => {
                let (_, v) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, i) = self.typed_opnd()?;
                Ok(I::ExtractElement(v, i))
            }
            "insertelement" => {
                let (t, v) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, e) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, i) = self.typed_opnd()?;
                Ok(I::InsertElement(t, v, e, i))
            }
            "shufflevector" => {
                let (t, a) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, b) = self.typed_opnd()?;
                self.want_p(b',')?;
                let mt = self.ty()?;
                let mask = match self.konst(&mt)? {
                    Const::Zero | Const::Undef => vec![0i64; mt.count()],
                    Const::Agg(v) => v
                        .iter()
                        .map(|c| match c {
                            Const::Int(k) => *k as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return self.err("shuffle mask"),
                };
                Ok(I::Shuffle(t, a, b, mask))
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let op = match self.word()?.as_str() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "nand" => Rmw::Nand,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "uinc_wrap" => Rmw::UIncWrap,
                    "udec_wrap" => Rmw::UDecWrap,
                    "usub_cond" => Rmw::USubCond,
                    "usub_sat" => Rmw::USubSat,
                    _ => return self.err("atomicrmw op"),
                };
                let (_, p) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (t, v) = self.typed_opnd()?;
                let o = self.ordering()?;
                Ok(I::AtomicRmw(op, t, p, v, o))
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let (_, p) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (t, c) = self.typed_opnd()?;
                self.want_p(b',')?;
                let (_, n) = self.typed_opnd()?;
                let o1 = self.ordering()?;
                let o2 = self.ordering()?;
                Ok(I::CmpXchg(t, p, c, n, o1, o2))
            }
            "fence" => Ok(I::Fence(self.ordering()?)),
            "freeze" => {
                let (_, v) = self.typed_opnd()?;
                Ok(I::Freeze(v))
            }
            _ => self.err(&format!("unknown instruction {}", head)),
        }
    }
}

fn cint(c: &Const) -> PResult<u128> {
    match c {
        Const::Int(v) => Ok(*v),
        Const::Zero | Const::Undef => Ok(0),
        _ => Err("expected integer constant".into()),
    }
}

pub fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Arr(n, t) => Val::A(Rc::new((0..*n).map(|_| zero_val(t)).collect())),
        Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| zero_val(t)).collect())),
        Ty::St(f, _) => Val::A(Rc::new(f.iter().map(zero_val).collect())),
        _ => Val::C(0),
    }
}

pub fn const_val(c: &Const, ty: &Ty) -> Val {
    match c {
        Const::Int(v) => Val::C(*v),
        Const::Zero | Const::Undef => zero_val(ty),
        Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
        Const::Agg(v) => Val::A(Rc::new(v.iter().enumerate().map(|(i, c)| const_val(c, &ty.elem(i))).collect())),
    }
}

fn write_const(c: &Const, ty: &Ty, out: &mut [u8]) {
    match c {
        Const::Zero | Const::Undef => {}
        Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
        Const::Int(v) => {
            let n = ty.store_size() as usize;
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        Const::Agg(v) => {
            for (i, e) in v.iter().enumerate() {
                let o = ty.field_offset(i) as usize;
                write_const(e, &ty.elem(i), &mut out[o..]);
            }
        }
    }
}

fn strip_comment(l: &str) -> &str {
    let b = l.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        if b[i] == b'"' {
            q = !q;
        } else if b[i] == b';' && !q {
            return &l[..i];
        }
    }
    l
}

fn global_name(l: &str) -> Option<(String, &str)> {
    // "@name = rest"
    let b = l.as_bytes();
    if b[0] != b'@' {
        return None;
    }
    if b[1] == b'"' {
        let e = l[2..].find('"')? + 2;
        let n = String::from_utf8_lossy(&unescape(&b[2..e])).to_string();
        Some((n, l[e + 1..].trim_start().strip_prefix('=')?.trim_start()))
    } else {
        let e = l.find(|c: char| c == ' ')?;
        Some((l[1..e].to_string(), l[e..].trim_start().strip_prefix('=')?.trim_start()))
    }
}

fn func_name(l: &str) -> Option<String> {
    let i = l.find('@')?;
    let r = &l[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        Some(String::from_utf8_lossy(&unescape(q[..e].as_bytes())).to_string())
    } else {
        let e = r.find('(')?;
        Some(r[..e].to_string())
    }
}

impl Module {
    pub fn load(path: &str) -> PResult<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module {
            text: String::new(),
            fns: vec![],
            fn_ids: HashMap::new(),
            globals: vec![],
            glob_ids: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            sections: HashMap::new(),
        };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let mut type_lines = vec![];
        let mut gsec: Vec<String> = vec![];
        while pos < bytes.len() {
            let e = memchr(b'\n', &bytes[pos..]).map(|x| pos + x).unwrap_or(bytes.len());
            let l = &text[pos..e];
            if l.starts_with("define ") {
                // find the closing "\n}"
                let end = find_sub(&bytes[pos..], b"\n}").map(|x| pos + x + 2).ok_or("unterminated define")?;
                let name = func_name(l).ok_or("define without name")?;
                let id = m.fns.len() as u32;
                m.fn_ids.insert(name.clone(), id);
                m.fns.push(FnInfo { name, def: Some((pos, end)), weak: false, parsed: RefCell::new(None) });
                pos = end;
                continue;
            } else if l.starts_with("declare ") {
                let name = func_name(l).ok_or("declare without name")?;
                let id = m.fns.len() as u32;
                m.fn_ids.insert(name.clone(), id);
                m.fns.push(FnInfo { name, def: None, weak: l.contains("extern_weak"), parsed: RefCell::new(None) });
            } else if l.starts_with('@') {
                if let Some((name, rest)) = global_name(l) {
                    let words: Vec<&str> = rest.split(' ').take(12).collect();
                    if words.contains(&"alias") {
                        if let Some(i) = rest.rfind('@') {
                            let t: String = rest[i + 1..].chars().take_while(|c| is_ident(*c as u8)).collect();
                            m.aliases.insert(name, t);
                        }
                    } else {
                        let mut is_const = false;
                        let mut tls = false;
                        for w in &words {
                            if w.starts_with("thread_local") {
                                tls = true;
                            }
                            if *w == "constant" {
                                is_const = true;
                                break;
                            }
                            if *w == "global" {
                                break;
                            }
                        }
                        let external = words[0] == "external" || words[0] == "extern_weak" || words[..words.len().min(4)].contains(&"external");
                        let weak = words[0] == "extern_weak";
                        let section = rest.find(", section \"").map(|i| {
                            let r = &rest[i + 11..];
                            r[..r.find('"').unwrap()].to_string()
                        });
                        if let Some(s) = &section {
                            if !gsec.contains(s) {
                                gsec.push(s.clone());
                            }
                        }
                        let id = m.globals.len() as u32;
                        m.glob_ids.insert(name.clone(), id);
                        m.globals.push(Global {
                            name,
                            line: (pos, e),
                            is_const,
                            external,
                            weak,
                            tls,
                            section,
                            addr: 0,
                            init: RefCell::new(None),
                        });
                    }
                }
            } else if l.starts_with('%') && l.contains(" = type ") {
                type_lines.push((pos, e));
            }
            pos = e + 1;
        }
        m.text = text;
        // named types (no recursion through values; opaque ones are ignored)
        for (s, e) in type_lines {
            let l = m.text[s..e].to_string();
            let i = l.find(" = type ").unwrap();
            let name = match lex(&l[..i])?.pop() {
                Some(Tok::Local(n)) => n,
                _ => continue,
            };
            let toks = lex(&l[i + 8..])?;
            let t = {
                let mut p = P { m: &m, t: toks, i: 0, regs: None, labels: None };
                p.ty_opt().ok().flatten()
            };
            if let Some(t) = t {
                m.types.insert(name, t);
            }
        }
        // addresses: one slot per global; sections with members are laid out contiguously
        let mut slot = GLOBAL_SLOT0;
        for g in 0..m.globals.len() {
            m.globals[g].addr = slot_base(slot, 4096); // refined alignment: all globals page aligned + offset 0
            slot += 1;
        }
        for s in gsec {
            if s.starts_with("llvm.") || s.starts_with('.') {
                continue;
            }
            let base = slot_base(slot, 4096);
            slot += 1;
            let mut off = 0u64;
            let mut mem = vec![];
            let ids: Vec<u32> = (0..m.globals.len() as u32)
                .filter(|g| m.globals[*g as usize].section.as_deref() == Some(&s))
                .collect();
            // need sizes: sizes do not depend on addresses of other globals
            for g in ids {
                let (al, size) = m.global_layout(g)?;
                off = (off + al - 1) / al * al;
                m.globals[g as usize].addr = base + off;
                mem.push((g, off));
                off += size;
            }
            m.sections.insert(s.clone(), (base, off, mem));
            for (pre, a) in [("__start_", base), ("__stop_", base + off)] {
                if let Some(g) = m.glob_ids.get(&format!("{}{}", pre, s)) {
                    m.globals[*g as usize].addr = a;
                }
            }
        }
        // start/stop symbols of sections without members
        for g in 0..m.globals.len() {
            let n = m.globals[g].name.clone();
            for pre in ["__start_", "__stop_"] {
                if let Some(s) = n.strip_prefix(pre) {
                    if !m.sections.contains_key(s) {
                        let a = slot_base(slot, 4096);
                        m.sections.insert(s.to_string(), (a, 0, vec![]));
                        slot += 1;
                        for p2 in ["__start_", "__stop_"] {
                            if let Some(g2) = m.glob_ids.get(&format!("{}{}", p2, s)) {
                                m.globals[*g2 as usize].addr = a;
                            }
                        }
                    }
                }
            }
        }
        m.sections.insert("\0end".into(), (slot, 0, vec![]));
        Ok(m)
    }
    /// number of the first slot not used by globals
    pub fn first_free_slot(&self) -> u64 {
        self.sections["\0end"].0 + 16
    }

    fn global_parser(&self, g: u32) -> PResult<(P<'_>, bool)> {
        let gl = &self.globals[g as usize];
        let l = &self.text[gl.line.0..gl.line.1];
        let (_, rest) = global_name(l).unwrap();
        let toks = lex(rest)?;
        let mut p = P { m: self, t: toks, i: 0, regs: None, labels: None };
        loop {
            match p.next()? {
                Tok::Word(w) if w == "global" || w == "constant" => break,
                _ => {}
            }
        }
        Ok((p, gl.external))
    }
    pub fn global_layout(&self, g: u32) -> PResult<(u64, u64)> {
        let (mut p, _) = self.global_parser(g)?;
        let t = p.ty()?;
        let mut al = t.align();
        for i in p.i..p.t.len() {
            if p.t[i] == Tok::Word("align".into()) {
                if let Some(Tok::Int(a)) = p.t.get(i + 1) {
                    al = *a as u64;
                }
            }
        }
        Ok((al, t.size()))
    }
    pub fn global_init(&self, g: u32) -> PResult<Rc<(u64, Vec<u8>)>> {
        if let Some(x) = &*self.globals[g as usize].init.borrow() {
            return Ok(x.clone());
        }
        let (mut p, ext) = self.global_parser(g)?;
        let t = p.ty()?;
        let mut bytes = vec![0u8; t.size() as usize];
        if !ext {
            let c = p.konst(&t)?;
            write_const(&c, &t, &mut bytes);
        }
        let r = Rc::new((1u64, bytes));
        *self.globals[g as usize].init.borrow_mut() = Some(r.clone());
        Ok(r)
    }

    pub fn fn_id(&self, n: &str) -> PResult<u32> {
        if let Some(i) = self.fn_ids.get(n) {
            return Ok(*i);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.fn_id(a);
        }
        Err(format!("unknown function @{}", n))
    }
    pub fn fn_addr(&self, id: u32) -> u64 {
        FN_BASE + id as u64 * 16
    }
    pub fn addr_of(&self, n: &str) -> PResult<u64> {
        if let Some(g) = self.glob_ids.get(n) {
            let gl = &self.globals[*g as usize];
            return Ok(gl.addr);
        }
        if let Some(f) = self.fn_ids.get(n) {
            if self.fns[*f as usize].weak && self.fns[*f as usize].def.is_none() && n != "getrandom" && n != "__cxa_thread_atexit_impl" {
                return Ok(0);
            }
            return Ok(self.fn_addr(*f));
        }
        if let Some(a) = self.aliases.get(n) {
            return self.addr_of(a);
        }
        Err(format!("unknown symbol @{}", n))
    }

    pub fn func(&self, id: u32) -> PResult<Rc<Func>> {
        let fi = &self.fns[id as usize];
        if let Some(f) = &*fi.parsed.borrow() {
            return Ok(f.clone());
        }
        let (s, e) = fi.def.ok_or_else(|| format!("no definition of {}", fi.name))?;
        let f = Rc::new(self.parse_func(&self.text[s..e], id).map_err(|x| format!("in @{}: {}", fi.name, x))?);
        *fi.parsed.borrow_mut() = Some(f.clone());
        Ok(f)
    }

    /// Text of the module with a call of @sym_point before every operation the engine treats as a
    /// scheduling point, and futex system calls redirected.
    pub fn instrument(&self, racy: &std::collections::HashSet<(String, u32, u32)>) -> String {
        let mut defs: Vec<(usize, usize, u32)> = vec![];
        for (i, f) in self.fns.iter().enumerate() {
            if let Some((s, e)) = f.def {
                defs.push((s, e, i as u32));
            }
        }
        defs.sort();
        let mut out = String::with_capacity(self.text.len() + (1 << 20));
        let mut pos = 0;
        for (s, e, id) in defs {
            out.push_str(&self.text[pos..s]);
            pos = e;
            let name = &self.fns[id as usize].name;
            let (mut bb, mut ip, mut first, mut in_switch) = (0u32, 0u32, true, false);
            for (k, raw) in self.text[s..e].split_inclusive('\n').enumerate() {
                if k == 0 {
                    out.push_str(raw);
                    continue;
                }
                let l = strip_comment(raw.trim_end_matches('\n')).trim_end();
                let t = l.trim_start();
                let cont = in_switch || t.starts_with("to label ") || l.starts_with("          ") && (t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter "));
                if t.is_empty() || t == "}" || cont || t.starts_with("#dbg_") {
                    if in_switch && t.starts_with(']') {
                        in_switch = false;
                    }
                    out.push_str(raw);
                    continue;
                }
                if t.starts_with("switch ") && !t.contains(']') {
                    in_switch = true;
                }
                if !l.starts_with(' ') {
                    if !first {
                        bb += 1;
                    }
                    first = false;
                    ip = 0;
                    out.push_str(raw);
                    continue;
                }
                first = false;
                let body = match t.find(" = ") {
                    Some(i) if t.starts_with('%') => &t[i + 3..],
                    _ => t,
                };
                if body.starts_with("phi ") {
                    out.push_str(raw);
                    continue;
                }
                let body = body.strip_prefix("tail ").unwrap_or(body);
                if body.starts_with("load atomic ")
                    || body.starts_with("store atomic ")
                    || body.starts_with("atomicrmw ")
                    || body.starts_with("cmpxchg ")
                    || racy.contains(&(name.clone(), bb, ip))
                {
                    out.push_str("  call void @sym_point()\n");
                }
                ip += 1;
                if raw.contains("@syscall(") {
                    out.push_str(&raw.replace("@syscall(", "@sym_syscall("));
                } else {
                    out.push_str(raw);
                }
            }
        }
        out.push_str(&self.text[pos..]);
        out.push_str("\ndeclare void @sym_point()\ndeclare i64 @sym_syscall(i64, ...)\n");
        out
    }

    fn parse_func(&self, text: &str, id: u32) -> PResult<Func> {
        let regs = RefCell::new(HashMap::new());
        let labels = RefCell::new(HashMap::new());
        let (head, body) = text.split_once('\n').ok_or("empty function")?;
        // header
        let toks = lex(head)?;
        let mut i = 0;
        while !matches!(toks[i], Tok::Global(_)) {
            i += 1;
        }
        let name = match &toks[i] {
            Tok::Global(n) => n.clone(),
            _ => unreachable!(),
        };
        let mut params = vec![];
        let mut p = P {
            m: self,
            t: toks,
            i: i + 1,
            regs: None,
            labels: None,
        };
        p.want_p(b'(')?;
        let mut unnamed = 0u32;
        while !p.eat_p(b')') {
            if p.peek() == Some(&Tok::Dots) {
                p.i += 1;
                continue;
            }
            let t = p.ty()?;
            let bv = p.attrs()?;
            let n = match p.peek() {
                Some(Tok::Local(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    n
                }
                _ => {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    n
                }
            };
            if n.bytes().all(|c| c.is_ascii_digit()) {
                unnamed = n.parse::<u32>().unwrap() + 1;
            }
            let k = regs.borrow().len() as u32;
            regs.borrow_mut().insert(n, k);
            params.push((t, bv));
            p.eat_p(b',');
        }
        // split into logical lines
        let mut lines: Vec<String> = vec![];
        let mut in_switch = false;
        for raw in body.lines() {
            let l = strip_comment(raw).trim_end();
            let t = l.trim_start();
            if t.is_empty() || t == "}" {
                continue;
            }
            if in_switch
                || t.starts_with("to label ")
                || l.starts_with("          ") && (t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter "))
            {
                let last = lines.last_mut().ok_or("continuation")?;
                last.push(' ');
                last.push_str(t);
                if in_switch && t.starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if t.starts_with("#dbg_") {
                continue;
            }
            if t.starts_with("switch ") && !t.contains(']') {
                in_switch = true;
            }
            lines.push(if l.starts_with(' ') { t.to_string() } else { format!("\x01{}", t) });
        }
        // first pass: labels
        let mut nblocks = 0u32;
        let mut first_label: Option<String> = None;
        for (k, l) in lines.iter().enumerate() {
            if let Some(lab) = l.strip_prefix('\x01') {
                let lab = lab.strip_suffix(':').ok_or_else(|| format!("bad label line {}", lab))?;
                let n = if let Some(q) = lab.strip_prefix('"') {
                    String::from_utf8_lossy(&unescape(q.trim_end_matches('"').as_bytes())).to_string()
                } else {
                    lab.to_string()
                };
                labels.borrow_mut().insert(n.clone(), nblocks);
                if k == 0 {
                    first_label = Some(n);
                }
                nblocks += 1;
            } else if k == 0 {
                // unlabelled entry block: named by the next unnamed value number
                labels.borrow_mut().insert(unnamed.to_string(), 0);
                nblocks = 1;
            }
        }
        let _ = first_label;
        let mut blocks: Vec<Block> = vec![];
        let regs_ref: &RefCell<HashMap<String, u32>> = &regs;
        let labels_ref: &RefCell<HashMap<String, u32>> = &labels;
        for (k, l) in lines.iter().enumerate() {
            if l.starts_with('\x01') {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            if k == 0 {
                blocks.push(Block { phis: vec![], insts: vec![] });
            }
            let toks = lex(l)?;
            // SAFETY: the parser only borrows the cells for the duration of this loop body.
            let (rr, lr): (&RefCell<_>, &RefCell<_>) =
                unsafe { (std::mem::transmute(regs_ref), std::mem::transmute(labels_ref)) };
            let mut p = P { m: self, t: toks, i: 0, regs: Some(rr), labels: Some(lr) };
            let mut dst = u32::MAX;
            if let Some(Tok::Local(n)) = p.peek() {
                let n = n.clone();
                p.i += 1;
                p.want_p(b'=')?;
                dst = p.reg(&n);
            }
            let head = p.word().map_err(|e| format!("{} in line {}", e, l))?;
            let b = blocks.last_mut().unwrap();
            if head == "phi" {
                while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|w| p.eat_w(w)) {}
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.want_p(b'[')?;
                    let o = p.opnd(&t)?;
                    p.want_p(b',')?;
                    let lb = match p.next()? {
                        Tok::Local(n) => p.label_id(&n)?,
                        _ => return Err("phi label".into()),
                    };
                    p.want_p(b']')?;
                    inc.push((lb, o));
                    if !(p.is_p(b',') && p.t.get(p.i + 1) == Some(&Tok::P(b'['))) {
                        break;
                    }
                    p.i += 1;
                }
                b.phis.push((dst, inc));
            } else {
                let i = p.inst(&head).map_err(|e| format!("{} in line {}", e, l))?;
                b.insts.push(Inst { dst, i });
            }
        }
        if blocks.len() as u32 != nblocks {
            return Err("block count".into());
        }
        let nregs = regs.borrow().len() as u32;
        Ok(Func { name, id, params, nregs, blocks })
    }
}

fn memchr(c: u8, b: &[u8]) -> Option<usize> {
    b.iter().position(|x| *x == c)
}
fn find_sub(b: &[u8], pat: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + pat.len() <= b.len() {
        match memchr(pat[0], &b[i..]) {
            None => return None,
            Some(k) => {
                i += k;
                if b[i..].starts_with(pat) {
                    return Some(i);
                }
                i += 1;
            }
        }
    }
    None
}
