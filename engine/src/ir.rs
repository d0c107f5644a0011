//! Translates LLVM bitcode into the flat scalar code run by the interpreter.
use crate::expr::{mask, BinOp, Fx, Pred, Val};
use crate::llvm::{self as L, *};
use crate::mem::Mem;
use crate::models::{self, Model};
use std::collections::HashMap;

pub type R = u32;
/// operand: register, or (with the top bit) index of the constant pool
pub type O = u32;
pub const KBIT: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Un {
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sat {
    UAdd,
    USub,
    SAdd,
    SSub,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, d: R, a: O, b: O },
    Ovf { op: BinOp, signed: bool, w: u8, d: R, a: O, b: O },
    SatOp { op: Sat, w: u8, d: R, a: O, b: O },
    Icmp { p: Pred, w: u8, d: R, a: O, b: O },
    Select { w: u8, d: R, c: O, a: O, b: O },
    Zext { d: R, a: O, from: u8, to: u8 },
    Sext { d: R, a: O, from: u8, to: u8 },
    Extract { d: R, a: O, aw: u8, lo: u8, w: u8 },
    Concat { d: R, parts: Box<[(O, u8)]> },
    Unary { op: Un, w: u8, d: R, a: O },
    Fsh { left: bool, w: u8, d: R, a: O, b: O, s: O },
    Cmp3 { signed: bool, w: u8, to: u8, d: R, a: O, b: O },
    Mov { d: R, a: O },
    ExtractDyn { d: R, w: u8, idx: O, items: Box<[O]> },
    Load { d: R, p: O, off: u32, w: u8 },
    Store { p: O, off: u32, v: O, w: u8 },
    Gep1 { d: R, base: O, off: i64, idx: O, iw: u8, scale: i64 },
    GepC { d: R, base: O, off: i64 },
    Gep { d: R, base: O, off: i64, terms: Box<[(O, u8, i64)]> },
    Alloca { d: R, size: u64, align: u32 },
    Call { f: u32, args: Box<[O]>, d: R },
    CallInd { f: O, args: Box<[O]>, d: R },
    Memcpy { d: O, s: O, n: O },
    Memset { d: O, v: O, n: O },
    AtomicRmw { op: u8, d: R, p: O, v: O, w: u8 },
    CmpXchg { d: R, p: O, c: O, n: O, w: u8 },
    Br { e: u32 },
    CondBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u8, cases: Box<[(u128, u32)]>, default: u32 },
    Ret { vals: Box<[O]> },
    Unreachable,
    Trap,
    Unsupported(Box<str>),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub copies: Box<[(R, O)]>,
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub defined: bool,
    pub model: Option<Model>,
    pub redirect: Option<u32>,
    /// belongs to the crate under test
    pub repo: bool,
}

pub struct Prog {
    pub funcs: Vec<Func>,
    pub by_name: HashMap<String, u32>,
    pub consts: Vec<Val>,
    pub mem: Mem,
    pub insts: usize,
}

pub const FN_BASE: u64 = 0x10000;
pub const GLOBAL_BASE: u64 = 0x10_0000;
pub const STACK_BASE: u64 = 0x100_0000;
pub const STACK_END: u64 = 0x120_0000;
pub const HEAP_BASE: u64 = 0x180_0000;

#[derive(Clone, Copy, Debug)]
struct Slot {
    w: u8,
    off: u32,
}

struct Tr {
    td: TD,
    fn_addr: HashMap<Value, u64, Fx>,
    fn_idx: HashMap<Value, u32, Fx>,
    g_addr: HashMap<Value, u64, Fx>,
    consts: Vec<Val>,
    cmap: HashMap<u128, u32, Fx>,
    tslots: HashMap<Type, std::rc::Rc<Vec<Slot>>, Fx>,
}

impl Tr {
    fn slots(&mut self, t: Type) -> Result<std::rc::Rc<Vec<Slot>>, String> {
        if let Some(v) = self.tslots.get(&t) {
            return Ok(v.clone());
        }
        let mut v = vec![];
        self.slots_rec(t, 0, &mut v)?;
        let r = std::rc::Rc::new(v);
        self.tslots.insert(t, r.clone());
        Ok(r)
    }
    fn slots_rec(&self, t: Type, off: u64, out: &mut Vec<Slot>) -> Result<(), String> {
        unsafe {
            match LLVMGetTypeKind(t) {
                0 | 14 => {}
                8 => {
                    let w = LLVMGetIntTypeWidth(t);
                    if w > 128 {
                        return Err(format!("int width {w}"));
                    }
                    out.push(Slot { w: w as u8, off: off as u32 })
                }
                12 => out.push(Slot { w: 64, off: off as u32 }),
                10 => {
                    for i in 0..LLVMCountStructElementTypes(t) {
                        let e = LLVMStructGetTypeAtIndex(t, i);
                        self.slots_rec(e, off + LLVMOffsetOfElement(self.td, t, i), out)?;
                    }
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    let sz = LLVMABISizeOfType(self.td, e);
                    let n = LLVMGetArrayLength2(t);
                    if n > 4096 {
                        return Err("large array value".into());
                    }
                    for i in 0..n {
                        self.slots_rec(e, off + i * sz, out)?;
                    }
                }
                13 => {
                    let e = LLVMGetElementType(t);
                    let bits = if LLVMGetTypeKind(e) == 12 { 64 } else { LLVMGetIntTypeWidth(e) as u64 };
                    for i in 0..LLVMGetVectorSize(t) as u64 {
                        self.slots_rec(e, off + i * ((bits + 7) / 8), out)?;
                    }
                }
                2 => out.push(Slot { w: 32, off: off as u32 }),
                3 => out.push(Slot { w: 64, off: off as u32 }),
                k => return Err(format!("type kind {k}: {}", print_ty(t))),
            }
        }
        Ok(())
    }

    fn size(&self, t: Type) -> u64 {
        unsafe { LLVMABISizeOfType(self.td, t) }
    }

    fn k(&mut self, v: u128) -> O {
        if let Some(&i) = self.cmap.get(&v) {
            return i | KBIT;
        }
        let i = self.consts.len() as u32;
        self.consts.push(Val::k(v));
        self.cmap.insert(v, i);
        i | KBIT
    }

    fn const_int(v: Value) -> u128 {
        unsafe {
            let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
            if w <= 64 {
                return LLVMConstIntGetZExtValue(v) as u128;
            }
            let s = print(v);
            let t = s.rsplit(' ').next().unwrap();
            let r = if let Some(n) = t.strip_prefix('-') {
                (n.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))).wrapping_neg()
            } else {
                t.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))
            };
            r & mask(w)
        }
    }

    /// flattened constant
    fn const_slots(&mut self, v: Value, out: &mut Vec<u128>) -> Result<(), String> {
        unsafe {
            let t = LLVMTypeOf(v);
            if !LLVMIsAConstantInt(v).is_null() && LLVMGetTypeKind(t) == 8 {
                out.push(Self::const_int(v));
                return Ok(());
            }
            if LLVMIsNull(v) != 0 || LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 {
                let n = self.slots(t)?.len();
                out.extend(std::iter::repeat(0).take(n));
                return Ok(());
            }
            if let Some(a) = self.fn_addr.get(&v) {
                out.push(*a as u128);
                return Ok(());
            }
            if let Some(a) = self.g_addr.get(&v) {
                out.push(*a as u128);
                return Ok(());
            }
            if !LLVMIsAGlobalAlias(v).is_null() {
                return self.const_slots(LLVMAliasGetAliasee(v), out);
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let r = self.const_expr(v)?;
                out.push(r);
                return Ok(());
            }
            if !LLVMIsAConstantFP(v).is_null() {
                return Err("float constant".into());
            }
            let n = match LLVMGetTypeKind(t) {
                10 => LLVMCountStructElementTypes(t),
                11 => LLVMGetArrayLength2(t) as u32,
                13 => LLVMGetVectorSize(t),
                _ => return Err(format!("constant {}", print(v))),
            };
            for i in 0..n {
                let e = LLVMGetAggregateElement(v, i);
                if e.is_null() {
                    return Err(format!("aggregate element of {}", print(v)));
                }
                self.const_slots(e, out)?;
            }
            Ok(())
        }
    }

    fn const1(&mut self, v: Value) -> Result<u128, String> {
        let mut o = vec![];
        self.const_slots(v, &mut o)?;
        if o.len() != 1 {
            return Err("constant is not scalar".into());
        }
        Ok(o[0])
    }

    fn const_expr(&mut self, v: Value) -> Result<u128, String> {
        unsafe {
            let t = LLVMTypeOf(v);
            let m = match LLVMGetTypeKind(t) {
                8 => mask(LLVMGetIntTypeWidth(t)),
                12 => mask(64),
                _ => return Err(format!("constant expression {}", print(v))),
            };
            let op = |i| LLVMGetOperand(v, i);
            Ok(match LLVMGetConstOpcode(v) {
                29 => {
                    let base = self.const1(op(0))?;
                    let (off, terms) = self.gep_parts(v)?;
                    let mut a = base.wrapping_add(off as i128 as u128);
                    for (tv, w, s) in terms {
                        let k = self.const1(tv)?;
                        a = a.wrapping_add((crate::expr::sx(k, w as u32) * s as i128) as u128);
                    }
                    a & m
                }
                39 | 40 | 41 | 30 | 31 => self.const1(op(0))? & m,
                8 => self.const1(op(0))?.wrapping_add(self.const1(op(1))?) & m,
                10 => self.const1(op(0))?.wrapping_sub(self.const1(op(1))?) & m,
                25 => self.const1(op(0))? ^ self.const1(op(1))?,
                o => return Err(format!("constant expression opcode {o}: {}", print(v))),
            })
        }
    }

    /// constant offset and (index value, width, scale) terms of a getelementptr
    fn gep_parts(&mut self, v: Value) -> Result<(i64, Vec<(Value, u8, i64)>), String> {
        unsafe {
            let mut t = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v) as u32;
            let mut off: i64 = 0;
            let mut terms = vec![];
            for i in 1..n {
                let x = LLVMGetOperand(v, i);
                let xt = LLVMTypeOf(x);
                if LLVMGetTypeKind(xt) != 8 {
                    return Err("vector gep".into());
                }
                let c = if !LLVMIsAConstantInt(x).is_null() {
                    Some(crate::expr::sx(Self::const_int(x), LLVMGetIntTypeWidth(xt)) as i64)
                } else {
                    None
                };
                let sz;
                if i == 1 {
                    sz = self.size(t);
                } else {
                    match LLVMGetTypeKind(t) {
                        10 => {
                            let k = c.ok_or("struct index")? as u32;
                            off += LLVMOffsetOfElement(self.td, t, k) as i64;
                            t = LLVMStructGetTypeAtIndex(t, k);
                            continue;
                        }
                        11 | 13 => {
                            t = LLVMGetElementType(t);
                            sz = self.size(t);
                        }
                        k => return Err(format!("gep into type kind {k}")),
                    }
                }
                match c {
                    Some(c) => off = off.wrapping_add(c.wrapping_mul(sz as i64)),
                    None => terms.push((x, LLVMGetIntTypeWidth(xt) as u8, sz as i64)),
                }
            }
            Ok((off, terms))
        }
    }

    fn init_global(&mut self, mem: &mut Mem, addr: u64, v: Value) -> Result<(), String> {
        unsafe {
            let t = LLVMTypeOf(v);
            if LLVMIsNull(v) != 0 || LLVMIsUndef(v) != 0 {
                return Ok(());
            }
            match LLVMGetTypeKind(t) {
                8 => {
                    let w = LLVMGetIntTypeWidth(t);
                    let k = Self::const_int(v);
                    for i in 0..((w + 7) / 8) as u64 {
                        mem.set8(addr + i, (k >> (8 * i)) as u8);
                    }
                }
                12 => {
                    let k = self.const1(v)?;
                    for i in 0..8u64 {
                        mem.set8(addr + i, (k >> (8 * i)) as u8);
                    }
                }
                10 => {
                    for i in 0..LLVMCountStructElementTypes(t) {
                        let e = LLVMGetAggregateElement(v, i);
                        self.init_global(mem, addr + LLVMOffsetOfElement(self.td, t, i), e)?;
                    }
                }
                11 | 13 => {
                    let n = if LLVMGetTypeKind(t) == 11 { LLVMGetArrayLength2(t) } else { LLVMGetVectorSize(t) as u64 };
                    let et = LLVMGetElementType(t);
                    let sz = self.size(et);
                    if !LLVMIsAConstantDataSequential(v).is_null() {
                        let mut len = 0;
                        let p = LLVMGetRawDataValues(v, &mut len);
                        let s = std::slice::from_raw_parts(p as *const u8, len);
                        for (i, b) in s.iter().enumerate() {
                            mem.set8(addr + i as u64, *b);
                        }
                        return Ok(());
                    }
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        self.init_global(mem, addr + i * sz, e)?;
                    }
                }
                2 | 3 => return Err("float global".into()),
                k => return Err(format!("global of type kind {k}")),
            }
        }
        Ok(())
    }
}

struct FnTr<'a> {
    tr: &'a mut Tr,
    vals: HashMap<Value, Vec<O>, Fx>,
    nregs: u32,
    code: Vec<Inst>,
    /// (pred, succ) of each edge
    edges: Vec<(Block, Block)>,
}

fn pred_of(p: i32) -> Pred {
    match p {
        32 => Pred::Eq,
        33 => Pred::Ne,
        34 => Pred::Ugt,
        35 => Pred::Uge,
        36 => Pred::Ult,
        37 => Pred::Ule,
        38 => Pred::Sgt,
        39 => Pred::Sge,
        40 => Pred::Slt,
        41 => Pred::Sle,
        _ => panic!("predicate {p}"),
    }
}

impl<'a> FnTr<'a> {
    fn ops(&mut self, v: Value) -> Result<Vec<O>, String> {
        if let Some(x) = self.vals.get(&v) {
            return Ok(x.clone());
        }
        if unsafe { LLVMIsAConstant(v).is_null() } {
            return Err(format!("use of untranslated value {}", print(v)));
        }
        let mut k = vec![];
        self.tr.const_slots(v, &mut k)?;
        Ok(k.into_iter().map(|x| self.tr.k(x)).collect())
    }
    fn op1(&mut self, v: Value) -> Result<O, String> {
        let x = self.ops(v)?;
        if x.len() != 1 {
            return Err(format!("scalar expected: {}", print(v)));
        }
        Ok(x[0])
    }
    fn regs(&mut self, n: usize) -> R {
        let r = self.nregs;
        self.nregs += n as u32;
        r
    }
    fn define(&mut self, v: Value) -> Result<(R, std::rc::Rc<Vec<Slot>>), String> {
        let s = self.tr.slots(unsafe { LLVMTypeOf(v) })?;
        let r = self.regs(s.len());
        self.vals.insert(v, (0..s.len() as u32).map(|i| r + i).collect());
        Ok((r, s))
    }
    fn edge(&mut self, from: Block, to: Block) -> u32 {
        self.edges.push((from, to));
        self.edges.len() as u32 - 1
    }

    fn inst(&mut self, v: Value, blk: Block) -> Result<(), String> {
        unsafe {
            let oc = LLVMGetInstructionOpcode(v);
            let op = |i| LLVMGetOperand(v, i);
            let ty = LLVMTypeOf(v);
            let bin = match oc {
                8 => Some(BinOp::Add),
                10 => Some(BinOp::Sub),
                12 => Some(BinOp::Mul),
                14 => Some(BinOp::UDiv),
                15 => Some(BinOp::SDiv),
                17 => Some(BinOp::URem),
                18 => Some(BinOp::SRem),
                20 => Some(BinOp::Shl),
                21 => Some(BinOp::LShr),
                22 => Some(BinOp::AShr),
                23 => Some(BinOp::And),
                24 => Some(BinOp::Or),
                25 => Some(BinOp::Xor),
                _ => None,
            };
            if let Some(bop) = bin {
                let (a, b) = (self.ops(op(0))?, self.ops(op(1))?);
                let (d, s) = self.define(v)?;
                for i in 0..s.len() {
                    self.code.push(Inst::Bin { op: bop, w: s[i].w, d: d + i as u32, a: a[i], b: b[i] });
                }
                return Ok(());
            }
            let nsucc_term = matches!(oc, 1..=7 | 67) || LLVMGetNumSuccessorsSafe(v, oc) > 0;
            match oc {
                1 => {
                    let mut vals = vec![];
                    if LLVMGetNumOperands(v) > 0 {
                        vals = self.ops(op(0))?;
                    }
                    self.code.push(Inst::Ret { vals: vals.into() });
                }
                7 => self.code.push(Inst::Unreachable),
                3 => {
                    let c = op(0);
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(c)) as u8;
                    let co = self.op1(c)?;
                    let n = LLVMGetNumSuccessors(v);
                    let default = self.edge(blk, LLVMGetSwitchDefaultDest(v));
                    let mut cases = vec![];
                    // one edge per successor block: phi values are the same for all cases of a block
                    let mut per: HashMap<Block, u32> = HashMap::new();
                    per.insert(LLVMGetSwitchDefaultDest(v), default);
                    for i in 1..n {
                        let s = LLVMGetSuccessor(v, i);
                        let k = Tr::const_int(LLVMGetSwitchCaseValue(v, i));
                        let e = match per.get(&s) {
                            Some(&e) => e,
                            None => {
                                let e = self.edge(blk, s);
                                per.insert(s, e);
                                e
                            }
                        };
                        cases.push((k, e));
                    }
                    cases.sort();
                    self.code.push(Inst::Switch { v: co, w, cases: cases.into(), default });
                }
                5 => {
                    self.call(v)?;
                    let e = self.edge(blk, LLVMGetNormalDest(v));
                    self.code.push(Inst::Br { e });
                }
                26 => {
                    let t = LLVMGetAllocatedType(v);
                    let n = Tr::const_int(LLVMGetOperand(v, 0)) as u64;
                    let size = self.tr.size(t) * n;
                    let align = LLVMGetAlignment(v).max(1);
                    let (d, _) = self.define(v)?;
                    self.code.push(Inst::Alloca { d, size, align });
                }
                27 => {
                    let p = self.op1(op(0))?;
                    let (d, s) = self.define(v)?;
                    for i in 0..s.len() {
                        self.code.push(Inst::Load { d: d + i as u32, p, off: s[i].off, w: s[i].w });
                    }
                }
                28 => {
                    let x = self.ops(op(0))?;
                    let p = self.op1(op(1))?;
                    let s = self.tr.slots(LLVMTypeOf(op(0)))?;
                    for i in 0..s.len() {
                        self.code.push(Inst::Store { p, off: s[i].off, v: x[i], w: s[i].w });
                    }
                }
                29 => {
                    let base = self.op1(op(0))?;
                    let (off, terms) = self.tr.gep_parts(v)?;
                    if off == 0 && terms.is_empty() {
                        self.vals.insert(v, vec![base]);
                        return Ok(());
                    }
                    let mut ts = vec![];
                    for (x, w, s) in terms {
                        ts.push((self.op1(x)?, w, s));
                    }
                    let (d, _) = self.define(v)?;
                    self.code.push(match ts.len() {
                        0 => Inst::GepC { d, base, off },
                        1 => Inst::Gep1 { d, base, off, idx: ts[0].0, iw: ts[0].1, scale: ts[0].2 },
                        _ => Inst::Gep { d, base, off, terms: ts.into() },
                    });
                }
                30 | 31 | 32 | 39 | 40 | 69 => {
                    let a = self.ops(op(0))?;
                    let fs = self.tr.slots(LLVMTypeOf(op(0)))?;
                    let ts = self.tr.slots(ty)?;
                    if fs.iter().zip(ts.iter()).all(|(x, y)| x.w == y.w) {
                        self.vals.insert(v, a);
                        return Ok(());
                    }
                    let (d, s) = self.define(v)?;
                    for i in 0..s.len() {
                        let (d, a, from, to) = (d + i as u32, a[i], fs[i].w, s[i].w);
                        self.code.push(if to < from {
                            Inst::Extract { d, a, aw: from, lo: 0, w: to }
                        } else if oc == 32 {
                            Inst::Sext { d, a, from, to }
                        } else {
                            Inst::Zext { d, a, from, to }
                        });
                    }
                }
                41 => {
                    let a = self.ops(op(0))?;
                    let fs = self.tr.slots(LLVMTypeOf(op(0)))?;
                    let ts = self.tr.slots(ty)?;
                    if fs.len() == ts.len() && fs.iter().zip(ts.iter()).all(|(x, y)| x.w == y.w) {
                        self.vals.insert(v, a);
                        return Ok(());
                    }
                    let total: u32 = fs.iter().map(|s| s.w as u32).sum();
                    if total > 128 {
                        return Err(format!("bitcast of {total} bits"));
                    }
                    let src = if fs.len() == 1 {
                        a[0]
                    } else {
                        let t = self.regs(1);
                        // first element is least significant
                        let parts: Vec<(O, u8)> = a.iter().zip(fs.iter()).rev().map(|(o, s)| (*o, s.w)).collect();
                        self.code.push(Inst::Concat { d: t, parts: parts.into() });
                        t
                    };
                    if ts.len() == 1 {
                        self.vals.insert(v, vec![src]);
                        return Ok(());
                    }
                    let (d, s) = self.define(v)?;
                    let mut lo = 0u32;
                    for i in 0..s.len() {
                        self.code.push(Inst::Extract { d: d + i as u32, a: src, aw: total as u8, lo: lo as u8, w: s[i].w });
                        lo += s[i].w as u32;
                    }
                }
                42 => {
                    let (a, b) = (self.ops(op(0))?, self.ops(op(1))?);
                    let fs = self.tr.slots(LLVMTypeOf(op(0)))?;
                    let p = pred_of(LLVMGetICmpPredicate(v));
                    let (d, s) = self.define(v)?;
                    for i in 0..s.len() {
                        self.code.push(Inst::Icmp { p, w: fs[i].w, d: d + i as u32, a: a[i], b: b[i] });
                    }
                }
                44 => { /* phi: registers assigned beforehand */ }
                45 => self.call(v)?,
                46 => {
                    let c = self.ops(op(0))?;
                    let (a, b) = (self.ops(op(1))?, self.ops(op(2))?);
                    let (d, s) = self.define(v)?;
                    for i in 0..s.len() {
                        let c = if c.len() == 1 { c[0] } else { c[i] };
                        self.code.push(Inst::Select { w: s[i].w, d: d + i as u32, c, a: a[i], b: b[i] });
                    }
                }
                50 => {
                    let a = self.ops(op(0))?;
                    if !LLVMIsAConstantInt(op(1)).is_null() {
                        let i = Tr::const_int(op(1)) as usize;
                        self.vals.insert(v, vec![a[i]]);
                    } else {
                        let idx = self.op1(op(1))?;
                        let (d, s) = self.define(v)?;
                        self.code.push(Inst::ExtractDyn { d, w: s[0].w, idx, items: a.into() });
                    }
                }
                51 => {
                    let mut a = self.ops(op(0))?;
                    let x = self.op1(op(1))?;
                    if LLVMIsAConstantInt(op(2)).is_null() {
                        return Err("insertelement with variable index".into());
                    }
                    a[Tr::const_int(op(2)) as usize] = x;
                    self.vals.insert(v, a);
                }
                52 => {
                    let mut a = self.ops(op(0))?;
                    let b = self.ops(op(1))?;
                    a.extend(b);
                    let n = LLVMGetNumMaskElements(v);
                    let z = self.tr.k(0);
                    let r = (0..n)
                        .map(|i| {
                            let m = LLVMGetMaskValue(v, i);
                            if m < 0 || m as usize >= a.len() {
                                z
                            } else {
                                a[m as usize]
                            }
                        })
                        .collect();
                    self.vals.insert(v, r);
                }
                53 | 54 => {
                    let agg = self.ops(op(0))?;
                    let mut t = LLVMTypeOf(op(0));
                    let n = LLVMGetNumIndices(v);
                    let idx = std::slice::from_raw_parts(LLVMGetIndices(v), n as usize);
                    let mut pos = 0;
                    for &i in idx {
                        if LLVMGetTypeKind(t) == 10 {
                            for j in 0..i {
                                pos += self.tr.slots(LLVMStructGetTypeAtIndex(t, j))?.len();
                            }
                            t = LLVMStructGetTypeAtIndex(t, i);
                        } else {
                            t = LLVMGetElementType(t);
                            pos += self.tr.slots(t)?.len() * i as usize;
                        }
                    }
                    let cnt = self.tr.slots(t)?.len();
                    if oc == 53 {
                        self.vals.insert(v, agg[pos..pos + cnt].to_vec());
                    } else {
                        let x = self.ops(op(1))?;
                        let mut r = agg;
                        r[pos..pos + cnt].copy_from_slice(&x);
                        self.vals.insert(v, r);
                    }
                }
                55 => {}
                68 => {
                    let a = self.ops(op(0))?;
                    self.vals.insert(v, a);
                }
                56 => {
                    let p = self.op1(op(0))?;
                    let c = self.op1(op(1))?;
                    let n = self.op1(op(2))?;
                    let (d, s) = self.define(v)?;
                    self.code.push(Inst::CmpXchg { d, p, c, n, w: s[0].w });
                }
                57 => {
                    let p = self.op1(op(0))?;
                    let x = self.op1(op(1))?;
                    let o = LLVMGetAtomicRMWBinOp(v);
                    let (d, s) = self.define(v)?;
                    self.code.push(Inst::AtomicRmw { op: o as u8, d, p, v: x, w: s[0].w });
                }
                _ if nsucc_term => {
                    let n = LLVMGetNumSuccessors(v);
                    if n == 1 {
                        let e = self.edge(blk, LLVMGetSuccessor(v, 0));
                        self.code.push(Inst::Br { e });
                    } else if n == 2 {
                        let c = self.op1(op(0))?;
                        let t = self.edge(blk, LLVMGetSuccessor(v, 0));
                        let f = self.edge(blk, LLVMGetSuccessor(v, 1));
                        self.code.push(Inst::CondBr { c, t, f });
                    } else {
                        self.code.push(Inst::Unreachable);
                    }
                }
                _ => return Err(format!("opcode {oc}: {}", print(v))),
            }
        }
        Ok(())
    }

    fn call(&mut self, v: Value) -> Result<(), String> {
        unsafe {
            let callee = LLVMGetCalledValue(v);
            let n = LLVMGetNumArgOperands(v);
            let arg = |i| LLVMGetOperand(v, i);
            if !LLVMIsAInlineAsm(callee).is_null() {
                let mut l = 0;
                let p = LLVMGetInlineAsmAsmString(callee, &mut l);
                let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned();
                let (d, sl) = self.define(v)?;
                if s.trim().is_empty() {
                    // optimisation barrier: returns its input when it has an output
                    if sl.len() == 1 && n >= 1 {
                        let a = self.op1(arg(0))?;
                        self.code.push(Inst::Mov { d, a });
                    }
                    return Ok(());
                }
                if s.contains("cpuid") || s.contains("xgetbv") {
                    let z = self.tr.k(0);
                    for i in 0..sl.len() {
                        self.code.push(Inst::Mov { d: d + i as u32, a: z });
                    }
                    return Ok(());
                }
                return Err(format!("inline asm {s}"));
            }
            let mut f = callee;
            if !LLVMIsAGlobalAlias(f).is_null() {
                f = LLVMAliasGetAliasee(f);
            }
            if !LLVMIsAFunction(f).is_null() {
                let nm = L::name(f);
                if let Some(i) = nm.strip_prefix("llvm.") {
                    return self.intrinsic(v, i);
                }
                let mut args = vec![];
                for i in 0..n {
                    args.extend(self.ops(arg(i))?);
                }
                let (d, _) = self.define(v)?;
                let fi = self.tr.fn_idx[&f];
                self.code.push(Inst::Call { f: fi, args: args.into(), d });
                return Ok(());
            }
            let fo = self.op1(callee)?;
            let mut args = vec![];
            for i in 0..n {
                args.extend(self.ops(arg(i))?);
            }
            let (d, _) = self.define(v)?;
            self.code.push(Inst::CallInd { f: fo, args: args.into(), d });
            Ok(())
        }
    }

    fn intrinsic(&mut self, v: Value, nm: &str) -> Result<(), String> {
        unsafe {
            let arg = |i| LLVMGetOperand(v, i);
            let st = |p: &str| nm.starts_with(p);
            if st("lifetime")
                || st("assume")
                || st("experimental.noalias")
                || st("dbg")
                || st("invariant")
                || st("sideeffect")
                || st("prefetch")
            {
                return Ok(());
            }
            if st("memcpy") || st("memmove") {
                let (d, s, n) = (self.op1(arg(0))?, self.op1(arg(1))?, self.op1(arg(2))?);
                self.code.push(Inst::Memcpy { d, s, n });
                return Ok(());
            }
            if st("memset") {
                let (d, x, n) = (self.op1(arg(0))?, self.op1(arg(1))?, self.op1(arg(2))?);
                self.code.push(Inst::Memset { d, v: x, n });
                return Ok(());
            }
            if st("trap") || st("ubsantrap") || st("debugtrap") {
                self.code.push(Inst::Trap);
                return Ok(());
            }
            if st("threadlocal.address")
                || st("expect")
                || st("ssa.copy")
                || st("launder")
                || st("strip")
                || st("ptrmask.never")
            {
                let a = self.ops(arg(0))?;
                self.vals.insert(v, a);
                return Ok(());
            }
            if st("is.constant") || st("objectsize") || st("allow") {
                let z = self.tr.k(0);
                self.vals.insert(v, vec![z]);
                return Ok(());
            }
            if st("x86.sse2.pause") {
                return Ok(());
            }
            let n = LLVMGetNumArgOperands(v);
            let a0 = if n > 0 { self.ops(arg(0))? } else { vec![] };
            if st("vector.reduce.") {
                let bop = if st("vector.reduce.or") {
                    BinOp::Or
                } else if st("vector.reduce.and") {
                    BinOp::And
                } else if st("vector.reduce.xor") {
                    BinOp::Xor
                } else if st("vector.reduce.add") {
                    BinOp::Add
                } else {
                    return Err(format!("intrinsic {nm}"));
                };
                let w = self.tr.slots(LLVMTypeOf(v))?[0].w;
                let mut acc = a0[0];
                for x in &a0[1..] {
                    let d = self.regs(1);
                    self.code.push(Inst::Bin { op: bop, w, d, a: acc, b: *x });
                    acc = d;
                }
                self.vals.insert(v, vec![acc]);
                return Ok(());
            }
            let un = if st("cttz") {
                Some(Un::Cttz)
            } else if st("ctlz") {
                Some(Un::Ctlz)
            } else if st("ctpop") {
                Some(Un::Ctpop)
            } else if st("bswap") {
                Some(Un::Bswap)
            } else if st("bitreverse") {
                Some(Un::Bitrev)
            } else if st("abs") {
                Some(Un::Abs)
            } else {
                None
            };
            if let Some(u) = un {
                let (d, s) = self.define(v)?;
                for i in 0..s.len() {
                    self.code.push(Inst::Unary { op: u, w: s[i].w, d: d + i as u32, a: a0[i] });
                }
                return Ok(());
            }
            let a1 = if n > 1 { self.ops(arg(1))? } else { vec![] };
            let minmax = if st("umin") {
                Some(Pred::Ult)
            } else if st("umax") {
                Some(Pred::Ugt)
            } else if st("smin") {
                Some(Pred::Slt)
            } else if st("smax") {
                Some(Pred::Sgt)
            } else {
                None
            };
            if let Some(p) = minmax {
                let (d, s) = self.define(v)?;
                for i in 0..s.len() {
                    let c = self.regs(1);
                    self.code.push(Inst::Icmp { p, w: s[i].w, d: c, a: a0[i], b: a1[i] });
                    self.code.push(Inst::Select { w: s[i].w, d: d + i as u32, c, a: a0[i], b: a1[i] });
                }
                return Ok(());
            }
            let ovf = if st("uadd.with.overflow") {
                Some((BinOp::Add, false))
            } else if st("usub.with.overflow") {
                Some((BinOp::Sub, false))
            } else if st("umul.with.overflow") {
                Some((BinOp::Mul, false))
            } else if st("sadd.with.overflow") {
                Some((BinOp::Add, true))
            } else if st("ssub.with.overflow") {
                Some((BinOp::Sub, true))
            } else if st("smul.with.overflow") {
                Some((BinOp::Mul, true))
            } else {
                None
            };
            if let Some((op, signed)) = ovf {
                let (d, s) = self.define(v)?;
                if s.len() != 2 {
                    return Err("vector overflow intrinsic".into());
                }
                self.code.push(Inst::Ovf { op, signed, w: s[0].w, d, a: a0[0], b: a1[0] });
                return Ok(());
            }
            let sat = if st("uadd.sat") {
                Some(Sat::UAdd)
            } else if st("usub.sat") {
                Some(Sat::USub)
            } else if st("sadd.sat") {
                Some(Sat::SAdd)
            } else if st("ssub.sat") {
                Some(Sat::SSub)
            } else {
                None
            };
            if let Some(op) = sat {
                let (d, s) = self.define(v)?;
                for i in 0..s.len() {
                    self.code.push(Inst::SatOp { op, w: s[i].w, d: d + i as u32, a: a0[i], b: a1[i] });
                }
                return Ok(());
            }
            if st("ucmp") || st("scmp") {
                let fs = self.tr.slots(LLVMTypeOf(arg(0)))?;
                let (d, s) = self.define(v)?;
                for i in 0..s.len() {
                    self.code.push(Inst::Cmp3 {
                        signed: st("scmp"),
                        w: fs[i].w,
                        to: s[i].w,
                        d: d + i as u32,
                        a: a0[i],
                        b: a1[i],
                    });
                }
                return Ok(());
            }
            if st("fshl") || st("fshr") {
                let a2 = self.ops(arg(2))?;
                let (d, s) = self.define(v)?;
                for i in 0..s.len() {
                    self.code.push(Inst::Fsh {
                        left: st("fshl"),
                        w: s[i].w,
                        d: d + i as u32,
                        a: a0[i],
                        b: a1[i],
                        s: a2[i],
                    });
                }
                return Ok(());
            }
            if st("ptrmask") {
                let (d, _) = self.define(v)?;
                self.code.push(Inst::Bin { op: BinOp::And, w: 64, d, a: a0[0], b: a1[0] });
                return Ok(());
            }
            Err(format!("intrinsic llvm.{nm}"))
        }
    }
}

#[allow(non_snake_case)]
unsafe fn LLVMGetNumSuccessorsSafe(v: Value, oc: i32) -> u32 {
    // terminators only; the plain opcodes below never have successors
    if matches!(oc, 8..=66 | 68 | 69) {
        0
    } else {
        LLVMGetNumSuccessors(v)
    }
}

fn translate(tr: &mut Tr, f: Value) -> Result<(u32, u32, Vec<Inst>, Vec<Edge>), String> {
    unsafe {
        let mut ft = FnTr { tr, vals: HashMap::default(), nregs: 0, code: vec![], edges: vec![] };
        for i in 0..LLVMCountParams(f) {
            ft.define(LLVMGetParam(f, i))?;
        }
        let nparams = ft.nregs;
        // reverse post order over the normal (non-unwind) successors
        let entry = LLVMGetFirstBasicBlock(f);
        let mut order = vec![];
        let mut seen: std::collections::HashSet<Block> = Default::default();
        let mut stack: Vec<(Block, Vec<Block>)> = vec![];
        let succs = |b: Block| -> Vec<Block> {
            let mut i = LLVMGetFirstInstruction(b);
            let mut last = i;
            while !i.is_null() {
                last = i;
                i = LLVMGetNextInstruction(i);
            }
            let oc = LLVMGetInstructionOpcode(last);
            if oc == 5 {
                return vec![LLVMGetNormalDest(last)];
            }
            if matches!(oc, 1 | 7 | 58) {
                return vec![];
            }
            (0..LLVMGetNumSuccessors(last)).map(|k| LLVMGetSuccessor(last, k)).collect()
        };
        seen.insert(entry);
        stack.push((entry, succs(entry)));
        while let Some((b, s)) = stack.last_mut() {
            if let Some(n) = s.pop() {
                if seen.insert(n) {
                    let ns = succs(n);
                    stack.push((n, ns));
                }
            } else {
                order.push(*b);
                stack.pop();
            }
        }
        order.reverse();
        // phi registers
        for &b in &order {
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
                ft.define(i)?;
                i = LLVMGetNextInstruction(i);
            }
        }
        let mut pcs: HashMap<Block, u32> = HashMap::new();
        for &b in &order {
            pcs.insert(b, ft.code.len() as u32);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if let Err(e) = ft.inst(i, b) {
                    ft.code.push(Inst::Unsupported(e.into()));
                    // the value may be used later: give it registers
                    if !ft.vals.contains_key(&i) {
                        let _ = ft.define(i);
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
        }
        let mut edges = vec![];
        for (from, to) in std::mem::take(&mut ft.edges) {
            let mut copies = vec![];
            let mut i = LLVMGetFirstInstruction(to);
            while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
                let n = LLVMCountIncoming(i);
                let d = ft.vals[&i].clone();
                for k in 0..n {
                    if LLVMGetIncomingBlock(i, k) == from {
                        let s = ft.ops(LLVMGetIncomingValue(i, k))?;
                        for (x, y) in d.iter().zip(s) {
                            if *x != y {
                                copies.push((*x, y));
                            }
                        }
                        break;
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            edges.push(Edge { pc: *pcs.get(&to).unwrap_or(&0), copies: copies.into() });
        }
        Ok((nparams, ft.nregs, ft.code, edges))
    }
}

pub fn load(path: &str) -> Prog {
    let (_c, m) = L::load(path);
    let td = unsafe { LLVMGetModuleDataLayout(m) };
    let mut tr = Tr {
        td,
        fn_addr: HashMap::default(),
        fn_idx: HashMap::default(),
        g_addr: HashMap::default(),
        consts: vec![],
        cmap: HashMap::default(),
        tslots: HashMap::default(),
    };
    let fs = L::functions(m);
    let mut by_name = HashMap::new();
    for (i, f) in fs.iter().enumerate() {
        tr.fn_addr.insert(*f, FN_BASE + 16 * i as u64);
        tr.fn_idx.insert(*f, i as u32);
        by_name.insert(L::name(*f), i as u32);
    }
    assert!(FN_BASE + 16 * (fs.len() as u64) < GLOBAL_BASE, "too many functions");
    let mut addr = GLOBAL_BASE;
    let gs = L::globals(m);
    for g in &gs {
        unsafe {
            let t = LLVMGlobalGetValueType(*g);
            let al = (LLVMGetAlignment(*g) as u64).max(LLVMABIAlignmentOfType(td, t) as u64).max(1);
            addr = (addr + al - 1) / al * al;
            tr.g_addr.insert(*g, addr);
            // distinct, non-empty regions
            addr += LLVMABISizeOfType(td, t).max(1);
        }
    }
    assert!(addr < STACK_BASE, "globals too large");
    let mut mem = Mem::new();
    mem.map(GLOBAL_BASE, addr - GLOBAL_BASE + 64);
    for g in &gs {
        unsafe {
            let i = LLVMGetInitializer(*g);
            if !i.is_null() && !L::name(*g).starts_with("llvm.") {
                if let Err(e) = tr.init_global(&mut mem, tr.g_addr[g], i) {
                    eprintln!("warning: global {}: {e}", L::name(*g));
                }
            }
        }
    }
    let mut funcs = vec![];
    let mut insts = 0;
    for f in &fs {
        let name = L::name(*f);
        let mut fun = Func {
            nparams: 0,
            nregs: 0,
            code: vec![],
            edges: vec![],
            defined: false,
            model: models::model_of(&name),
            redirect: models::override_of(&name).map(|o| {
                *by_name.get(o).unwrap_or_else(|| panic!("override {o} of {name} is missing"))
            }),
            repo: name.contains("8poreader"),
            name,
        };
        if unsafe { LLVMIsDeclaration(*f) } == 0 {
            match translate(&mut tr, *f) {
                Ok((np, nr, code, edges)) => {
                    insts += code.len();
                    fun.nparams = np;
                    fun.nregs = nr;
                    fun.code = code;
                    fun.edges = edges;
                    fun.defined = true;
                }
                Err(e) => {
                    fun.code = vec![Inst::Unsupported(format!("{}: {e}", fun.name).into())];
                    fun.edges = vec![];
                    fun.nparams = 0;
                    fun.nregs = 64;
                    fun.defined = true;
                }
            }
        }
        funcs.push(fun);
    }
    Prog { funcs, by_name, consts: tr.consts, mem, insts }
}
