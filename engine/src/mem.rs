//! Symbolic memory: concrete addresses, one slot per object, symbolic bytes.
use crate::expr::*;
use crate::ir::{slot_base, Module, SLOT_BITS};
use std::rc::Rc;

pub const CONC: E = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Const,
    Heap,
    Stack,
    Tls,
}

#[derive(Clone, Copy, Default)]
pub struct Shadow {
    pub wt: u8,
    pub wc: u32,
    pub ws: u32,
    pub wa: bool,
    pub rt: u8, // last reader thread
    pub rc: u32,
    pub rs: u32,
    pub ra: bool,
    pub rt2: u8,
    pub rc2: u32,
    pub rs2: u32,
    pub ra2: bool,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub kind: Kind,
    pub align: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub shadow: Option<Vec<Shadow>>,
}
impl Obj {
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
}

#[derive(Clone)]
pub enum Slot {
    Empty,
    Dead(u64, u64, Kind, u32), // base, size, kind, freeing function id
    Live(Rc<Obj>),
}

const CH: usize = 64;
#[derive(Clone)]
pub struct Chunk(pub Vec<Slot>);

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub next_slot: u64,
    pub reuse: bool,
    free: Vec<(u64, u64, u64)>, // size, align, slot
    pub live_heap: i64,
}

pub enum Look<'a> {
    Live(&'a Rc<Obj>),
    Dead(u64, u64, Kind, u32),
    None,
}

impl Mem {
    pub fn new(first: u64) -> Mem {
        Mem { chunks: vec![], next_slot: first, reuse: false, free: vec![], live_heap: 0 }
    }
    fn slot_mut(&mut self, s: u64) -> &mut Slot {
        let c = s as usize / CH;
        if self.chunks.len() <= c {
            self.chunks.resize(c + 1, None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk(vec![Slot::Empty; CH])));
        &mut Rc::make_mut(ch).0[s as usize % CH]
    }
    fn slot(&self, s: u64) -> Option<&Slot> {
        let c = s as usize / CH;
        match self.chunks.get(c) {
            Some(Some(ch)) => Some(&ch.0[s as usize % CH]),
            _ => None,
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, fill: u8) -> Option<u64> {
        if size > (1 << SLOT_BITS) - 0x40000 || align > 0x10000 {
            return None;
        }
        let mut slot = None;
        if self.reuse && kind == Kind::Heap {
            if let Some(i) = self.free.iter().rposition(|f| f.0 == size && f.1 == align) {
                slot = Some(self.free.remove(i).2);
            }
        }
        let slot = slot.unwrap_or_else(|| {
            self.next_slot += 1;
            self.next_slot - 1
        });
        let base = slot_base(slot, align);
        if kind == Kind::Heap {
            self.live_heap += 1;
        }
        *self.slot_mut(slot) = Slot::Live(Rc::new(Obj { base, kind, align, data: vec![fill; size as usize], sym: None, shadow: None }));
        Some(base)
    }
    pub fn put_global(&mut self, base: u64, data: Vec<u8>, konst: bool) {
        let s = base >> SLOT_BITS;
        *self.slot_mut(s) = Slot::Live(Rc::new(Obj {
            base,
            kind: if konst { Kind::Const } else { Kind::Global },
            align: 16,
            data,
            sym: None,
            shadow: None,
        }));
    }
    pub fn kill(&mut self, addr: u64, by: u32) {
        let s = addr >> SLOT_BITS;
        let reuse = self.reuse;
        let sl = self.slot_mut(s);
        if let Slot::Live(o) = sl {
            let (b, z, k, al) = (o.base, o.size(), o.kind, o.align);
            *sl = Slot::Dead(b, z, k, by);
            if k == Kind::Heap {
                self.live_heap -= 1;
                if reuse {
                    self.free.push((z, al, s));
                }
            }
        }
    }
    pub fn look(&self, addr: u64) -> Look<'_> {
        match self.slot(addr >> SLOT_BITS) {
            Some(Slot::Live(o)) => Look::Live(o),
            Some(Slot::Dead(b, s, k, by)) => Look::Dead(*b, *s, *k, *by),
            _ => Look::None,
        }
    }
    pub fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        match self.slot_mut(addr >> SLOT_BITS) {
            Slot::Live(o) => Some(Rc::make_mut(o)),
            _ => None,
        }
    }
}

/// Make sure a global's object exists in this memory.
pub fn materialize(mem: &mut Mem, m: &Module, addr: u64) -> Result<bool, String> {
    // section?
    let slot = addr >> SLOT_BITS;
    for (_, (b, size, members)) in m.sections.iter() {
        if b >> SLOT_BITS == slot && *b != slot {
            let mut data = vec![0u8; *size as usize];
            for (g, off) in members {
                let i = m.global_init(*g)?;
                let o = *off as usize;
                data[o..o + i.1.len()].copy_from_slice(&i.1);
            }
            mem.put_global(*b, data, false);
            return Ok(true);
        }
    }
    if slot < crate::ir::GLOBAL_SLOT0 {
        return Ok(false);
    }
    let g = slot - crate::ir::GLOBAL_SLOT0;
    if (g as usize) < m.globals.len() {
        let gl = &m.globals[g as usize];
        if gl.addr >> SLOT_BITS != slot {
            return Ok(false);
        }
        let i = m.global_init(g as u32)?;
        mem.put_global(gl.addr, i.1.clone(), gl.is_const);
        return Ok(true);
    }
    Ok(false)
}

pub fn rd_bytes(o: &Obj, off: usize, n: usize) -> Result<u128, E> {
    // Ok(concrete little-endian) or Err(expr)
    if let Some(s) = &o.sym {
        if s[off..off + n].iter().any(|e| *e != CONC) {
            let mut acc: Option<E> = None;
            let mut i = 0;
            while i < n {
                let b = s[off + i];
                let mut len = 1;
                let part = if b == CONC {
                    konst(8, o.data[off + i] as u128)
                } else {
                    let x = crate::expr::n(b);
                    if x.op == Op::Extract {
                        // a run of consecutive bytes of one word
                        while i + len < n && s[off + i + len] != CONC {
                            let y = crate::expr::n(s[off + i + len]);
                            if y.op == Op::Extract && y.a == x.a && y.k == x.k + 8 * len as u128 {
                                len += 1;
                            } else {
                                break;
                            }
                        }
                        extract(x.a, x.k as u16, 8 * len as u16)
                    } else {
                        b
                    }
                };
                acc = Some(match acc {
                    None => part,
                    Some(a) => concat(part, a),
                });
                i += len;
            }
            let e = acc.unwrap();
            return match as_const(e) {
                Some(k) => Ok(k),
                None => Err(e),
            };
        }
    }
    let mut buf = [0u8; 16];
    buf[..n].copy_from_slice(&o.data[off..off + n]);
    Ok(u128::from_le_bytes(buf))
}

pub fn wr_conc(o: &mut Obj, off: usize, n: usize, v: u128) {
    o.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
    if let Some(s) = &mut o.sym {
        for i in 0..n {
            s[off + i] = CONC;
        }
    }
}
pub fn wr_byte_e(o: &mut Obj, off: usize, e: E) {
    if let Some(k) = as_const(e) {
        o.data[off] = k as u8;
        if let Some(s) = &mut o.sym {
            s[off] = CONC;
        }
        return;
    }
    let n = o.data.len();
    let s = o.sym.get_or_insert_with(|| vec![CONC; n]);
    s[off] = e;
}
pub fn wr_expr(o: &mut Obj, off: usize, n: usize, e: E) {
    // e has width 8*n
    for i in 0..n {
        wr_byte_e(o, off + i, raw_byte(e, i as u16));
    }
}
pub fn byte_e(o: &Obj, off: usize) -> E {
    if let Some(s) = &o.sym {
        if s[off] != CONC {
            return simp_byte(s[off]);
        }
    }
    konst(8, o.data[off] as u128)
}
