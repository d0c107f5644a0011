//! Hash-consed bit-vector expressions.
//!
//! Every expression over exactly one 8-bit symbolic byte (width <= 64) is kept in canonical
//! form as a 256-entry lookup table over that byte, so two such expressions are
//! equal iff they are the same node.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Lut(u32, u32), // var, table
    Bin(BinOp, E, E),
    Cmp(Pred, E, E), // only Eq, Ult, Ule, Slt, Sle
    Ite(E, E, E),
    Sext(E),
    Extract(E, u8),
    Concat(E, E), // hi, lo
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub node: Node,
    pub w: u8,
    pub vars: u128,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Val {
    pub c: u128,
    pub e: E,
}

impl Val {
    #[inline(always)]
    pub fn k(c: u128) -> Val {
        Val { c, e: 0 }
    }
    #[inline(always)]
    pub fn is_c(&self) -> bool {
        self.e == 0
    }
}

#[inline(always)]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

#[inline(always)]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of the LLVM binary operators (division by zero yields 0; the callers of
/// `bin_c` in the interpreter check for it).
#[inline(always)]
pub fn bin_c(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                mask(w)
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        // SMT-LIB semantics for zero divisors
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    mask(w)
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = sx(a, w);
            if b >= w as u128 {
                if s < 0 {
                    mask(w)
                } else {
                    0
                }
            } else {
                (s >> b) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    r & mask(w)
}

#[inline(always)]
pub fn cmp_c(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

pub type Table = Rc<[u64; 256]>;

pub struct Ctx {
    pub nodes: Vec<Info>,
    map: HashMap<(Node, u8), E, Fx>,
    pub tables: Vec<Table>,
    tmap: HashMap<Table, u32, Fx>,
    pub var_w: Vec<u8>,
    truth: HashMap<E, [u64; 4], Fx>,
    /// bitset of the 8-bit variables
    pub byte_vars: u128,
    ident: Table,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        for &x in it.remainder() {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut id = [0u64; 256];
        for (i, x) in id.iter_mut().enumerate() {
            *x = i as u64;
        }
        Ctx {
            nodes: vec![Info { node: Node::Const(0), w: 0, vars: 0 }],
            map: HashMap::default(),
            tables: vec![],
            tmap: HashMap::default(),
            var_w: vec![],
            truth: HashMap::default(),
            byte_vars: 0,
            ident: Rc::new(id),
        }
    }

    #[inline(always)]
    pub fn info(&self, e: E) -> &Info {
        &self.nodes[e as usize]
    }

    fn intern(&mut self, node: Node, w: u32, vars: u128) -> E {
        if let Some(&e) = self.map.get(&(node, w as u8)) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(Info { node, w: w as u8, vars });
        self.map.insert((node, w as u8), e);
        e
    }

    /// An expression over one byte variable is always a lookup table.
    fn node(&mut self, node: Node, w: u32, vars: u128) -> Val {
        if w <= 64 && vars != 0 && vars & (vars - 1) == 0 && vars & self.byte_vars != 0 {
            let var = vars.trailing_zeros();
            let e = self.intern(node, w, vars);
            let mut m = vec![0u128; var as usize + 1];
            let mut t = [0u64; 256];
            for i in 0..256 {
                m[var as usize] = i as u128;
                t[i] = self.eval(e, &m, &mut HashMap::default()) as u64;
            }
            return self.mk_lut(var, t, w);
        }
        Val { c: 0, e: self.intern(node, w, vars) }
    }

    /// The variable with index `id` and width `w` (an index has one width).
    pub fn var_at(&mut self, id: u32, w: u32) -> Val {
        assert!(id < 128, "too many symbolic variables");
        while self.var_w.len() <= id as usize {
            self.var_w.push(0);
        }
        assert!(self.var_w[id as usize] == 0 || self.var_w[id as usize] == w as u8, "variable {id} has two widths");
        self.var_w[id as usize] = w as u8;
        if w == 8 {
            self.byte_vars |= 1 << id;
        }
        Val { c: 0, e: self.intern(Node::Var(id), w, 1u128 << id) }
    }

    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.intern(Node::Const(v & mask(w)), w, 0)
    }

    /// expression id of a value (constants get a node)
    pub fn as_e(&mut self, v: Val, w: u32) -> E {
        if v.e == 0 {
            self.konst(v.c, w)
        } else {
            v.e
        }
    }

    pub fn val(&self, e: E) -> Val {
        if let Node::Const(c) = self.nodes[e as usize].node {
            Val::k(c)
        } else {
            Val { c: 0, e }
        }
    }

    pub fn width(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }

    /// Is `e` an expression over exactly one byte variable?
    pub fn single(&self, e: E) -> Option<u32> {
        let i = &self.nodes[e as usize];
        if i.vars != 0 && i.vars & (i.vars - 1) == 0 && i.vars & self.byte_vars != 0 && i.w <= 64 {
            Some(i.vars.trailing_zeros())
        } else {
            None
        }
    }

    pub fn table(&self, e: E) -> Option<Table> {
        match self.nodes[e as usize].node {
            Node::Lut(_, t) => Some(self.tables[t as usize].clone()),
            Node::Var(v) if self.var_w[v as usize] == 8 => Some(self.ident.clone()),
            _ => None,
        }
    }

    pub fn mk_lut(&mut self, var: u32, t: [u64; 256], w: u32) -> Val {
        let f = t[0];
        if t.iter().all(|&x| x == f) {
            return Val::k(f as u128);
        }
        if w == 8 && t == *self.ident {
            return Val { c: 0, e: self.intern(Node::Var(var), 8, 1u128 << var) };
        }
        let rc: Table = Rc::new(t);
        let id = match self.tmap.get(&rc) {
            Some(&i) => i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(rc.clone());
                self.tmap.insert(rc, i);
                i
            }
        };
        Val { c: 0, e: self.intern(Node::Lut(var, id), w, 1u128 << var) }
    }

    /// truth set of a 1-bit expression over one byte variable
    pub fn truth_set(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let t = self.table(e).expect("truth_set of non-lut");
        let mut s = [0u64; 4];
        for i in 0..256 {
            if t[i] & 1 != 0 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        self.truth.insert(e, s);
        s
    }

    /// If all the given operands are over at most one common byte variable, return it.
    fn common_single(&self, vs: &[Val]) -> Option<u32> {
        let mut vars = 0u128;
        for v in vs {
            if v.e != 0 {
                let i = &self.nodes[v.e as usize];
                if i.w > 64 {
                    return None;
                }
                vars |= i.vars;
            } else if v.c >> 64 != 0 {
                return None;
            }
        }
        if vars != 0 && vars & (vars - 1) == 0 && vars & self.byte_vars != 0 {
            Some(vars.trailing_zeros())
        } else {
            None
        }
    }

    fn lanes(&self, v: Val) -> Result<u64, Table> {
        if v.e == 0 {
            Ok(v.c as u64)
        } else {
            Err(self.table(v.e).unwrap_or_else(|| panic!("not canonical: {:?}", self.nodes[v.e as usize])))
        }
    }

    fn lane(l: &Result<u64, Table>, i: usize) -> u64 {
        match l {
            Ok(c) => *c,
            Err(t) => t[i],
        }
    }

    fn lut_fn(&mut self, var: u32, w: u32, vs: &[Val], f: impl Fn(&[u64]) -> u64) -> Val {
        let ls: Vec<_> = vs.iter().map(|v| self.lanes(*v)).collect();
        let mut t = [0u64; 256];
        let mut tmp = [0u64; 4];
        for i in 0..256 {
            for (j, l) in ls.iter().enumerate() {
                tmp[j] = Self::lane(l, i);
            }
            t[i] = f(&tmp[..ls.len()]);
        }
        self.mk_lut(var, t, w)
    }

    fn vars2(&self, a: E, b: E) -> u128 {
        self.nodes[a as usize].vars | self.nodes[b as usize].vars
    }

    fn cst(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize].node {
            Some(c)
        } else {
            None
        }
    }

    /// The value `v` extends with its sign, and its width.
    fn short(&self, v: Val, w: u32) -> Option<(Val, u32)> {
        if v.e == 0 {
            let x = sx(v.c, w);
            return if x as i64 as i128 == x { Some((Val::k(v.c & mask(64)), 64)) } else { None };
        }
        match self.nodes[v.e as usize].node {
            Node::Sext(x) => Some((self.val(x), self.width(x))),
            _ => None,
        }
    }

    pub fn bin(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 {
            return Val::k(bin_c(op, w, a.c, b.c));
        }
        if w <= 64 {
            if let Some(v) = self.common_single(&[a, b]) {
                return self.lut_fn(v, w, &[a, b], |x| bin_c(op, w, x[0] as u128, x[1] as u128) as u64);
            }
        }
        let m = mask(w);
        use BinOp::*;
        // constants to the right for commutative operators
        let (a, b) = if a.e == 0 && matches!(op, Add | Mul | And | Or | Xor) { (b, a) } else { (a, b) };
        if b.e == 0 {
            let k = b.c & m;
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if k == 0 => return a,
                And if k == 0 => return Val::k(0),
                And if k == m => return a,
                Or if k == m => return Val::k(m),
                Mul if k == 0 => return Val::k(0),
                Mul if k == 1 => return a,
                UDiv | SDiv if k == 1 => return a,
                URem if k == 1 => return Val::k(0),
                Sub => return self.bin(Add, w, a, Val::k((0u128).wrapping_sub(k) & m)),
                Add => {
                    if let Node::Bin(Add, x, y) = self.nodes[a.e as usize].node {
                        if let Some(c2) = self.cst(y) {
                            let xv = self.val(x);
                            return self.bin(Add, w, xv, Val::k(c2.wrapping_add(k) & m));
                        }
                    }
                }
                Mul if k.is_power_of_two() => return self.bin(Shl, w, a, Val::k(k.trailing_zeros() as u128)),
                UDiv if k.is_power_of_two() => return self.bin(LShr, w, a, Val::k(k.trailing_zeros() as u128)),
                URem if k.is_power_of_two() => return self.bin(And, w, a, Val::k(k - 1)),
                Shl if k >= w as u128 => return Val::k(0),
                LShr if k >= w as u128 => return Val::k(0),
                Shl => {
                    let s = k as u32;
                    let lo = self.extract(a, w, 0, w - s);
                    return self.concat(lo, w - s, Val::k(0), s);
                }
                LShr => {
                    let s = k as u32;
                    let hi = self.extract(a, w, s, w - s);
                    return self.concat(Val::k(0), s, hi, w - s);
                }
                Xor if w == 1 => return self.not1(a),
                _ => {}
            }
        }
        // the remainder of extended values is that of the values
        if w > 64 && op == SRem {
            if let (Some((x, p)), Some((y, q))) = (self.short(a, w), self.short(b, w)) {
                let n = p.max(q);
                if n < w {
                    let (x, y) = (self.sext(x, p, n), self.sext(y, q, n));
                    let r = self.bin(SRem, n, x, y);
                    return self.sext(r, n, w);
                }
            }
        }
        if a.e == b.e && a.e != 0 {
            match op {
                Sub | Xor => return Val::k(0),
                And | Or => return a,
                _ => {}
            }
        }
        if w == 1 && matches!(op, And | Or | Xor) {
            return self.bool_bin(op, a, b);
        }
        if matches!(op, And | Or | Xor) {
            // distribute over concatenations
            let sp = |s: &Ctx, v: Val| -> Option<u32> {
                if v.e == 0 {
                    return None;
                }
                if let Node::Concat(_, l) = s.nodes[v.e as usize].node {
                    Some(s.width(l))
                } else {
                    None
                }
            };
            let split = match (sp(self, a), sp(self, b)) {
                (Some(x), Some(_)) => Some(x),
                (Some(x), None) if b.e == 0 => Some(x),
                (None, Some(x)) if a.e == 0 => Some(x),
                _ => None,
            };
            if let Some(s) = split {
                let (ah, al) = (self.extract(a, w, s, w - s), self.extract(a, w, 0, s));
                let (bh, bl) = (self.extract(b, w, s, w - s), self.extract(b, w, 0, s));
                let h = self.bin(op, w - s, ah, bh);
                let l = self.bin(op, s, al, bl);
                return self.concat(h, w - s, l, s);
            }
        }
        let (ea, eb) = (self.as_e(a, w), self.as_e(b, w));
        let (ea, eb) = if matches!(op, Add | Mul | And | Or | Xor) && self.cst(eb).is_none() && ea > eb {
            (eb, ea)
        } else {
            (ea, eb)
        };
        let vars = self.vars2(ea, eb);
        self.node(Node::Bin(op, ea, eb), w, vars)
    }

    fn bool_bin(&mut self, op: BinOp, a: Val, b: Val) -> Val {
        let (mut ea, mut eb) = (a.e, b.e);
        if ea > eb {
            std::mem::swap(&mut ea, &mut eb);
        }
        // x & !x
        if let Node::Bin(BinOp::Xor, x, _) = self.nodes[eb as usize].node {
            if x == ea && self.cst_right(eb) == Some(1) {
                return match op {
                    BinOp::And => Val::k(0),
                    _ => Val::k(1),
                };
            }
        }
        if let Node::Bin(BinOp::Xor, x, _) = self.nodes[ea as usize].node {
            if x == eb && self.cst_right(ea) == Some(1) {
                return match op {
                    BinOp::And => Val::k(0),
                    _ => Val::k(1),
                };
            }
        }
        let vars = self.vars2(ea, eb);
        self.node(Node::Bin(op, ea, eb), 1, vars)
    }

    fn cst_right(&self, e: E) -> Option<u128> {
        if let Node::Bin(_, _, r) = self.nodes[e as usize].node {
            self.cst(r)
        } else {
            None
        }
    }

    pub fn not1(&mut self, a: Val) -> Val {
        if a.e == 0 {
            return Val::k((a.c & 1) ^ 1);
        }
        if let Some(v) = self.common_single(&[a]) {
            return self.lut_fn(v, 1, &[a], |x| (x[0] & 1) ^ 1);
        }
        match self.nodes[a.e as usize].node {
            Node::Bin(BinOp::Xor, x, y) if self.cst(y) == Some(1) => return self.val(x),
            Node::Cmp(p, x, y) => {
                // complement by swapping where a node form exists
                let (p2, x2, y2) = match p {
                    Pred::Ult => (Pred::Ule, y, x),
                    Pred::Ule => (Pred::Ult, y, x),
                    Pred::Slt => (Pred::Sle, y, x),
                    Pred::Sle => (Pred::Slt, y, x),
                    _ => (Pred::Eq, 0, 0),
                };
                if x2 != 0 {
                    let vars = self.vars2(x2, y2);
                    return self.node(Node::Cmp(p2, x2, y2), 1, vars);
                }
            }
            _ => {}
        }
        let one = self.konst(1, 1);
        let vars = self.nodes[a.e as usize].vars;
        self.node(Node::Bin(BinOp::Xor, a.e, one), 1, vars)
    }

    pub fn cmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 {
            return Val::k(cmp_c(p, w, a.c, b.c) as u128);
        }
        if w <= 64 {
            if let Some(v) = self.common_single(&[a, b]) {
                return self.lut_fn(v, 1, &[a, b], |x| cmp_c(p, w, x[0] as u128, x[1] as u128) as u64);
            }
        }
        if a.e == b.e && a.e != 0 {
            return Val::k(matches!(p, Pred::Eq | Pred::Ule | Pred::Uge | Pred::Sle | Pred::Sge) as u128);
        }
        match p {
            Pred::Ne => {
                let r = self.cmp(Pred::Eq, w, a, b);
                return self.not1(r);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, w, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, w, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, w, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, w, b, a),
            _ => {}
        }
        let (a, b) = if p == Pred::Eq && a.e == 0 { (b, a) } else { (a, b) };
        let m = mask(w);
        // trivial bounds
        if b.e == 0 {
            match p {
                Pred::Ult if b.c == 0 => return Val::k(0),
                Pred::Ule if b.c == m => return Val::k(1),
                Pred::Ult if b.c == 1 => return self.cmp(Pred::Eq, w, a, Val::k(0)),
                Pred::Ule if b.c == 0 => return self.cmp(Pred::Eq, w, a, Val::k(0)),
                _ => {}
            }
        }
        if a.e == 0 {
            match p {
                Pred::Ule if a.c == 0 => return Val::k(1),
                Pred::Ult if a.c == m => return Val::k(0),
                Pred::Ult if a.c == 0 => {
                    let r = self.cmp(Pred::Eq, w, b, Val::k(0));
                    return self.not1(r);
                }
                _ => {}
            }
        }
        if p == Pred::Eq && w == 1 {
            if b.e == 0 {
                return if b.c & 1 == 1 { a } else { self.not1(a) };
            }
        }
        // ite with constant arms compared with a constant
        for (x, y, flip) in [(a, b, false), (b, a, true)] {
            if x.e != 0 && y.e == 0 {
                if let Node::Ite(c, t, f) = self.nodes[x.e as usize].node {
                    if self.cst(t).is_some() || self.cst(f).is_some() {
                        let (tv, fv) = (self.val(t), self.val(f));
                        let (r1, r2) = if flip {
                            (self.cmp(p, w, y, tv), self.cmp(p, w, y, fv))
                        } else {
                            (self.cmp(p, w, tv, y), self.cmp(p, w, fv, y))
                        };
                        let cv = self.val(c);
                        return self.ite(1, cv, r1, r2);
                    }
                }
            }
        }
        let cc = |s: &Ctx, v: Val| -> Option<(E, E)> {
            if v.e == 0 {
                return None;
            }
            if let Node::Concat(h, l) = s.nodes[v.e as usize].node {
                Some((h, l))
            } else {
                None
            }
        };
        if p == Pred::Eq {
            let split = match (cc(self, a), cc(self, b)) {
                (Some((_, l)), Some(_)) => Some(self.width(l)),
                (Some((_, l)), None) if b.e == 0 => Some(self.width(l)),
                _ => None,
            };
            if let Some(s) = split {
                let (ah, al) = (self.extract(a, w, s, w - s), self.extract(a, w, 0, s));
                let (bh, bl) = (self.extract(b, w, s, w - s), self.extract(b, w, 0, s));
                let h = self.cmp(Pred::Eq, w - s, ah, bh);
                if h.e == 0 && h.c == 0 {
                    return Val::k(0);
                }
                let l = self.cmp(Pred::Eq, s, al, bl);
                return self.bin(BinOp::And, 1, h, l);
            }
        } else {
            // zero-extended operands
            let zx = |s: &Ctx, v: Val| -> Option<u32> {
                if v.e == 0 {
                    let used = 128 - (v.c & m).leading_zeros();
                    return Some(used.max(1));
                }
                if let Node::Concat(h, l) = s.nodes[v.e as usize].node {
                    if s.cst(h) == Some(0) {
                        return Some(s.width(l));
                    }
                }
                None
            };
            if let (Some(x), Some(y)) = (zx(self, a), zx(self, b)) {
                let n = x.max(y);
                if n < w {
                    let (p2, a2, b2) = match p {
                        Pred::Slt => (Pred::Ult, self.extract(a, w, 0, n), self.extract(b, w, 0, n)),
                        Pred::Sle => (Pred::Ule, self.extract(a, w, 0, n), self.extract(b, w, 0, n)),
                        _ => (p, self.extract(a, w, 0, n), self.extract(b, w, 0, n)),
                    };
                    return self.cmp(p2, n, a2, b2);
                }
            }
        }
        let (ea, eb) = (self.as_e(a, w), self.as_e(b, w));
        let (ea, eb) = if p == Pred::Eq && self.cst(eb).is_none() && ea > eb { (eb, ea) } else { (ea, eb) };
        let vars = self.vars2(ea, eb);
        self.node(Node::Cmp(p, ea, eb), 1, vars)
    }

    pub fn ite(&mut self, w: u32, c: Val, t: Val, f: Val) -> Val {
        if c.e == 0 {
            return if c.c & 1 == 1 { t } else { f };
        }
        if t.e == f.e && (t.e != 0 || t.c == f.c) {
            return t;
        }
        if w <= 64 {
            if let Some(v) = self.common_single(&[c, t, f]) {
                return self.lut_fn(v, w, &[c, t, f], |x| if x[0] & 1 == 1 { x[1] } else { x[2] });
            }
        }
        if w == 1 {
            if t.e == 0 && f.e == 0 {
                return if t.c & 1 == 1 { c } else { self.not1(c) };
            }
            if t.e == 0 {
                return if t.c & 1 == 1 {
                    self.bin(BinOp::Or, 1, c, f)
                } else {
                    let n = self.not1(c);
                    self.bin(BinOp::And, 1, n, f)
                };
            }
            if f.e == 0 {
                return if f.c & 1 == 0 {
                    self.bin(BinOp::And, 1, c, t)
                } else {
                    let n = self.not1(c);
                    self.bin(BinOp::Or, 1, n, t)
                };
            }
        }
        if let Node::Bin(BinOp::Xor, x, y) = self.nodes[c.e as usize].node {
            if self.cst(y) == Some(1) {
                let xv = self.val(x);
                return self.ite(w, xv, f, t);
            }
        }
        let (et, ef) = (self.as_e(t, w), self.as_e(f, w));
        let vars = self.nodes[c.e as usize].vars | self.vars2(et, ef);
        self.node(Node::Ite(c.e, et, ef), w, vars)
    }

    pub fn extract(&mut self, v: Val, vw: u32, lo: u32, w: u32) -> Val {
        if v.e == 0 {
            return Val::k((v.c >> lo) & mask(w));
        }
        if w == vw {
            return v;
        }
        if vw <= 64 {
            if let Some(var) = self.common_single(&[v]) {
                return self.lut_fn(var, w, &[v], |x| ((x[0] as u128 >> lo) & mask(w)) as u64);
            }
        }
        match self.nodes[v.e as usize].node {
            Node::Concat(h, l) => {
                let lw = self.width(l);
                let (hv, lv) = (self.val(h), self.val(l));
                if lo >= lw {
                    return self.extract(hv, vw - lw, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(lv, lw, lo, w);
                }
                let a = self.extract(hv, vw - lw, 0, lo + w - lw);
                let b = self.extract(lv, lw, lo, lw - lo);
                return self.concat(a, lo + w - lw, b, lw - lo);
            }
            Node::Extract(x, l2) => {
                let xw = self.width(x);
                let xv = self.val(x);
                return self.extract(xv, xw, lo + l2 as u32, w);
            }
            Node::Ite(c, t, f) if self.cst(t).is_some() || self.cst(f).is_some() => {
                let (tv, fv, cv) = (self.val(t), self.val(f), self.val(c));
                let a = self.extract(tv, vw, lo, w);
                let b = self.extract(fv, vw, lo, w);
                return self.ite(w, cv, a, b);
            }
            Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let (xv, yv) = (self.val(x), self.val(y));
                let a = self.extract(xv, vw, lo, w);
                let b = self.extract(yv, vw, lo, w);
                return self.bin(op, w, a, b);
            }
            Node::Bin(op @ (BinOp::Add | BinOp::Sub), x, y) if lo == 0 && vw > 64 => {
                let (xv, yv) = (self.val(x), self.val(y));
                let a = self.extract(xv, vw, 0, w);
                let b = self.extract(yv, vw, 0, w);
                return self.bin(op, w, a, b);
            }
            Node::Sext(x) => {
                let xw = self.width(x);
                let xv = self.val(x);
                if lo + w <= xw {
                    return self.extract(xv, xw, lo, w);
                }
                if lo == 0 {
                    return self.sext(xv, xw, w);
                }
            }
            _ => {}
        }
        let vars = self.nodes[v.e as usize].vars;
        self.node(Node::Extract(v.e, lo as u8), w, vars)
    }

    pub fn concat(&mut self, hi: Val, hw: u32, lo: Val, lw: u32) -> Val {
        if hw == 0 {
            return lo;
        }
        if lw == 0 {
            return hi;
        }
        let w = hw + lw;
        if hi.e == 0 && lo.e == 0 {
            return Val::k((hi.c << lw) | lo.c);
        }
        if w <= 64 {
            if let Some(v) = self.common_single(&[hi, lo]) {
                return self.lut_fn(v, w, &[hi, lo], |x| (x[0] << lw) | x[1]);
            }
        }
        // adjacent extracts of one expression
        if hi.e != 0 && lo.e != 0 {
            if let (Node::Extract(x, hl), Node::Extract(y, ll)) =
                (self.nodes[hi.e as usize].node, self.nodes[lo.e as usize].node)
            {
                if x == y && hl as u32 == ll as u32 + lw {
                    let (xv, xw) = (self.val(x), self.width(x));
                    return self.extract(xv, xw, ll as u32, w);
                }
            }
            // hi = Extract(x), lo = Concat(Extract(x), rest)
            if let (Node::Extract(x, hl), Node::Concat(m, rest)) =
                (self.nodes[hi.e as usize].node, self.nodes[lo.e as usize].node)
            {
                if let Node::Extract(y, ml) = self.nodes[m as usize].node {
                    let mw = self.width(m);
                    if x == y && hl as u32 == ml as u32 + mw {
                        let (xv, xw, rv, rw) = (self.val(x), self.width(x), self.val(rest), self.width(rest));
                        let nh = self.extract(xv, xw, ml as u32, mw + hw);
                        return self.concat(nh, mw + hw, rv, rw);
                    }
                }
            }
        }
        // keep concatenations right-nested: (a . b) . c  ->  a . (b . c)
        if hi.e != 0 {
            if let Node::Concat(a, b) = self.nodes[hi.e as usize].node {
                let (av, aw, bv, bw) = (self.val(a), self.width(a), self.val(b), self.width(b));
                let l = self.concat(bv, bw, lo, lw);
                return self.concat(av, aw, l, bw + lw);
            }
        }
        // merge constant prefixes: k1 . (k2 . x)
        if hi.e == 0 && lo.e != 0 {
            if let Node::Concat(a, b) = self.nodes[lo.e as usize].node {
                if let Some(k2) = self.cst(a) {
                    let (aw, bv, bw) = (self.width(a), self.val(b), self.width(b));
                    return self.concat(Val::k((hi.c << aw) | k2), hw + aw, bv, bw);
                }
            }
        }
        let (eh, el) = (self.as_e(hi, hw), self.as_e(lo, lw));
        let vars = self.vars2(eh, el);
        self.node(Node::Concat(eh, el), w, vars)
    }

    pub fn zext(&mut self, v: Val, from: u32, to: u32) -> Val {
        if v.e == 0 {
            return v;
        }
        self.concat(Val::k(0), to - from, v, from)
    }

    pub fn sext(&mut self, v: Val, from: u32, to: u32) -> Val {
        if v.e == 0 {
            return Val::k(sx(v.c, from) as u128 & mask(to));
        }
        if from == to {
            return v;
        }
        if to <= 64 {
            if let Some(var) = self.common_single(&[v]) {
                return self.lut_fn(var, to, &[v], |x| (sx(x[0] as u128, from) as u128 & mask(to)) as u64);
            }
        }
        if from == 1 {
            return self.ite(to, v, Val::k(mask(to)), Val::k(0));
        }
        if let Node::Concat(h, _) = self.nodes[v.e as usize].node {
            if let Some(k) = self.cst(h) {
                if (k >> (self.width(h) - 1)) & 1 == 0 {
                    return self.zext(v, from, to);
                }
            }
        }
        let vars = self.nodes[v.e as usize].vars;
        self.node(Node::Sext(v.e), to, vars)
    }

    /// The same value on the domains, with every table constant outside its variable's domain.
    pub fn normal(&mut self, e: E, dom: &[[u64; 4]]) -> Val {
        let mut memo: HashMap<E, Val, Fx> = HashMap::default();
        let mut seen: HashMap<E, (), Fx> = HashMap::default();
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            match self.nodes[x as usize].node {
                Node::Const(_) | Node::Var(_) => {}
                Node::Lut(v, t) => {
                    let d = &dom[v as usize];
                    let mut n = *self.tables[t as usize];
                    let inside = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                    if let Some(f) = (0..256).find(|i| inside(*i)) {
                        let w = self.width(x);
                        let m = mask(w) as u64;
                        // affine on the domain: affine everywhere
                        let g = (f + 1..256).find(|i| inside(*i));
                        let step = match g {
                            Some(g) if g == f + 1 => n[g].wrapping_sub(n[f]),
                            _ => 0,
                        };
                        let line = |i: usize| n[f].wrapping_add(step.wrapping_mul((i as u64).wrapping_sub(f as u64))) & m;
                        if (0..256).all(|i| !inside(i) || n[i] == line(i)) {
                            let l: Vec<u64> = (0..256).map(line).collect();
                            n.copy_from_slice(&l);
                        } else {
                            let k = n[f];
                            for i in 0..256 {
                                if !inside(i) {
                                    n[i] = k;
                                }
                            }
                        }
                        let r = self.mk_lut(v, n, w);
                        memo.insert(x, r);
                    }
                }
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => todo.extend([a, b]),
                Node::Ite(c, a, b) => todo.extend([c, a, b]),
                Node::Sext(a) | Node::Extract(a, _) => todo.push(a),
            }
        }
        let vars = self.nodes[e as usize].vars;
        self.subst(e, &mut memo, vars, &|_, _, _| None)
    }

    /// Rebuild `e` with the given function replacing lookup-table / variable leaves.
    pub fn subst(&mut self, e: E, memo: &mut HashMap<E, Val, Fx>, relevant: u128, leaf: &dyn Fn(&Ctx, E, u32) -> Option<u128>) -> Val {
        let inf = self.nodes[e as usize];
        if inf.vars & relevant == 0 {
            return self.val(e);
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = inf.w as u32;
        let r = match inf.node {
            Node::Const(c) => Val::k(c),
            Node::Var(v) | Node::Lut(v, _) => match leaf(self, e, v) {
                Some(c) => Val::k(c),
                None => Val { c: 0, e },
            },
            Node::Bin(op, a, b) => {
                let x = self.subst(a, memo, relevant, leaf);
                let y = self.subst(b, memo, relevant, leaf);
                self.bin(op, w, x, y)
            }
            Node::Cmp(p, a, b) => {
                let aw = self.width(a);
                let x = self.subst(a, memo, relevant, leaf);
                let y = self.subst(b, memo, relevant, leaf);
                self.cmp(p, aw, x, y)
            }
            Node::Ite(c, a, b) => {
                let cv = self.subst(c, memo, relevant, leaf);
                if cv.e == 0 {
                    if cv.c & 1 == 1 {
                        self.subst(a, memo, relevant, leaf)
                    } else {
                        self.subst(b, memo, relevant, leaf)
                    }
                } else {
                    let x = self.subst(a, memo, relevant, leaf);
                    let y = self.subst(b, memo, relevant, leaf);
                    self.ite(w, cv, x, y)
                }
            }
            Node::Sext(a) => {
                let aw = self.width(a);
                let x = self.subst(a, memo, relevant, leaf);
                self.sext(x, aw, w)
            }
            Node::Extract(a, lo) => {
                let aw = self.width(a);
                let x = self.subst(a, memo, relevant, leaf);
                self.extract(x, aw, lo as u32, w)
            }
            Node::Concat(a, b) => {
                let (aw, bw) = (self.width(a), self.width(b));
                let x = self.subst(a, memo, relevant, leaf);
                let y = self.subst(b, memo, relevant, leaf);
                self.concat(x, aw, y, bw)
            }
        };
        memo.insert(e, r);
        r
    }

    /// Bounds of an expression read as a signed number, when every byte variable is within its domain.
    pub fn srange(&self, e: E, dom: &[[u64; 4]], memo: &mut HashMap<E, (i128, i128), Fx>) -> (i128, i128) {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let inf = self.nodes[e as usize];
        let w = inf.w as u32;
        if w > 64 {
            return (i128::MIN, i128::MAX);
        }
        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let full = (lo, hi);
        let sg = |x: u128| -> i128 { ((x & mask(w)) << (128 - w)) as i128 >> (128 - w) };
        let fit = |a: i128, b: i128| if a >= lo && b <= hi { (a, b) } else { full };
        let r = match inf.node {
            Node::Const(c) => (sg(c), sg(c)),
            Node::Var(v) if self.var_w[v as usize] != 8 => full,
            Node::Var(v) | Node::Lut(v, _) => {
                let t = self.table(e).unwrap();
                let d = dom[v as usize];
                let mut r = (i128::MAX, i128::MIN);
                for i in 0..256 {
                    if d[i >> 6] >> (i & 63) & 1 == 1 {
                        let x = sg(t[i] as u128);
                        r = (r.0.min(x), r.1.max(x));
                    }
                }
                if r.0 > r.1 { full } else { r }
            }
            Node::Bin(op, a, b) => {
                let (a, b) = (self.srange(a, dom, memo), self.srange(b, dom, memo));
                let zero = b.0 <= 0 && b.1 >= 0;
                match op {
                    BinOp::Add => fit(a.0 + b.0, a.1 + b.1),
                    BinOp::Sub => fit(a.0 - b.1, a.1 - b.0),
                    BinOp::Mul => {
                        let p = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                        fit(*p.iter().min().unwrap(), *p.iter().max().unwrap())
                    }
                    BinOp::SDiv => {
                        let m = a.0.abs().max(a.1.abs()).max(1);
                        fit(if a.0 >= 0 && b.0 >= 0 && !zero { 0 } else { -m }, m)
                    }
                    BinOp::SRem => {
                        let m = a.0.abs().max(a.1.abs());
                        let m = if zero { m } else { m.min(b.0.abs().max(b.1.abs()) - 1) };
                        fit(if a.0 >= 0 { 0 } else { -m }, if a.1 <= 0 { 0 } else { m })
                    }
                    BinOp::UDiv | BinOp::URem if a.0 >= 0 && b.0 >= 0 => (if zero { -1 } else { 0 }, a.1),
                    BinOp::And if a.0 >= 0 && b.0 >= 0 => (0, a.1.min(b.1)),
                    BinOp::And if a.0 >= 0 => (0, a.1),
                    BinOp::And if b.0 >= 0 => (0, b.1),
                    _ => full,
                }
            }
            Node::Ite(_, a, b) => {
                let (a, b) = (self.srange(a, dom, memo), self.srange(b, dom, memo));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Node::Sext(a) => self.srange(a, dom, memo),
            Node::Concat(a, b) => match self.nodes[a as usize].node {
                Node::Const(0) => {
                    let bw = self.width(b);
                    let r = self.srange(b, dom, memo);
                    if r.0 >= 0 { r } else { (0, (1i128 << bw) - 1) }
                }
                _ => full,
            },
            Node::Extract(a, 0) => {
                let r = self.srange(a, dom, memo);
                if r.0 >= lo && r.1 <= hi { r } else { full }
            }
            _ => full,
        };
        memo.insert(e, r);
        r
    }

    /// The same value on the domains, with multiplication and division of small numbers done on as
    /// few bits as they need.
    pub fn narrow(&mut self, e: E, dom: &[[u64; 4]], memo: &mut HashMap<E, Val, Fx>, rm: &mut HashMap<E, (i128, i128), Fx>) -> Val {
        let inf = self.nodes[e as usize];
        if inf.vars == 0 {
            return self.val(e);
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = inf.w as u32;
        let r = match inf.node {
            Node::Const(c) => Val::k(c),
            Node::Var(_) | Node::Lut(..) => Val { c: 0, e },
            Node::Bin(op, a, b) => {
                let x = self.narrow(a, dom, memo, rm);
                let y = self.narrow(b, dom, memo, rm);
                let mut k = w;
                if w <= 64 && matches!(op, BinOp::Mul | BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    let (p, q, r) = (self.srange(a, dom, rm), self.srange(b, dom, rm), self.srange(e, dom, rm));
                    let signed = matches!(op, BinOp::Mul | BinOp::SDiv | BinOp::SRem) || p.0 >= 0 && q.0 >= 0;
                    if signed {
                        let bits = |x: i128| 129 - (if x < 0 { !x } else { x }).leading_zeros();
                        k = [p.0, p.1, q.0, q.1, r.0, r.1].into_iter().map(bits).max().unwrap();
                    }
                }
                if k < w && x.e != 0 || k < w && y.e != 0 {
                    let x = self.extract(x, w, 0, k);
                    let y = self.extract(y, w, 0, k);
                    let v = self.bin(op, k, x, y);
                    self.sext(v, k, w)
                } else {
                    self.bin(op, w, x, y)
                }
            }
            Node::Cmp(p, a, b) => {
                let aw = self.width(a);
                let x = self.narrow(a, dom, memo, rm);
                let y = self.narrow(b, dom, memo, rm);
                self.cmp(p, aw, x, y)
            }
            Node::Ite(c, a, b) => {
                let c = self.narrow(c, dom, memo, rm);
                let x = self.narrow(a, dom, memo, rm);
                let y = self.narrow(b, dom, memo, rm);
                if c.e == 0 {
                    if c.c & 1 == 1 { x } else { y }
                } else {
                    self.ite(w, c, x, y)
                }
            }
            Node::Sext(a) => {
                let aw = self.width(a);
                let x = self.narrow(a, dom, memo, rm);
                self.sext(x, aw, w)
            }
            Node::Extract(a, lo) => {
                let aw = self.width(a);
                let x = self.narrow(a, dom, memo, rm);
                self.extract(x, aw, lo as u32, w)
            }
            Node::Concat(a, b) => {
                let (aw, bw) = (self.width(a), self.width(b));
                let x = self.narrow(a, dom, memo, rm);
                let y = self.narrow(b, dom, memo, rm);
                self.concat(x, aw, y, bw)
            }
        };
        memo.insert(e, r);
        r
    }

    /// Bounds (unsigned) of an expression when every byte variable is within its domain.
    pub fn range(&self, e: E, dom: &dyn Fn(u32) -> [u64; 4], memo: &mut HashMap<E, (u128, u128), Fx>) -> (u128, u128) {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let inf = self.nodes[e as usize];
        let w = inf.w as u32;
        let m = mask(w);
        let full = (0, m);
        let bits = |x: u128| -> u128 { if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() } };
        let r = match inf.node {
            Node::Const(c) => (c & m, c & m),
            Node::Var(v) if self.var_w[v as usize] != 8 => full,
            Node::Var(v) | Node::Lut(v, _) => {
                let t = self.table(e).unwrap();
                let d = dom(v);
                let mut r = (u128::MAX, 0);
                for i in 0..256 {
                    if d[i >> 6] >> (i & 63) & 1 == 1 {
                        let x = t[i] as u128;
                        r = (r.0.min(x), r.1.max(x));
                    }
                }
                if r.0 > r.1 { full } else { r }
            }
            Node::Bin(op, a, b) => {
                let (a, b) = (self.range(a, dom, memo), self.range(b, dom, memo));
                match op {
                    BinOp::Add => match a.1.checked_add(b.1) {
                        Some(h) if h <= m => (a.0 + b.0, h),
                        _ => full,
                    },
                    BinOp::Sub if a.0 >= b.1 => (a.0 - b.1, a.1 - b.0),
                    BinOp::Mul => match a.1.checked_mul(b.1) {
                        Some(h) if h <= m => (a.0 * b.0, h),
                        _ => full,
                    },
                    BinOp::UDiv if b.0 > 0 => (a.0 / b.1, a.1 / b.0),
                    BinOp::URem if b.0 > 0 => if a.1 < b.0 { a } else { (0, (b.1 - 1).min(a.1)) },
                    BinOp::And => if w == 1 { (a.0 & b.0, a.1 & b.1) } else { (0, a.1.min(b.1)) },
                    BinOp::Or => (a.0.max(b.0), bits(a.1 | b.1) & m),
                    BinOp::Xor => {
                        if a.0 == a.1 && b.0 == b.1 { (a.0 ^ b.0, a.0 ^ b.0) } else { (0, bits(a.1 | b.1) & m) }
                    }
                    BinOp::LShr if b.0 == b.1 => if b.0 >= w as u128 { (0, 0) } else { (a.0 >> b.0, a.1 >> b.0) },
                    _ => full,
                }
            }
            Node::Cmp(p, a, b) => {
                let aw = self.width(a);
                let (x, y) = (self.range(a, dom, memo), self.range(b, dom, memo));
                let h = 1u128 << (aw - 1);
                let part = |s: E, q: E| match self.nodes[s as usize].node {
                    Node::Bin(BinOp::Add, l, r) => l == q || r == q,
                    _ => false,
                };
                let sum = |s: E, memo: &mut HashMap<E, (u128, u128), Fx>| match self.nodes[s as usize].node {
                    Node::Bin(BinOp::Add, l, r) => {
                        let (l, r) = (self.range(l, dom, memo), self.range(r, dom, memo));
                        l.1.checked_add(r.1).map_or(false, |t| t <= mask(aw))
                    }
                    _ => false,
                };
                let v = match p {
                    // a sum that does not wrap is not below its parts
                    Pred::Ult if part(a, b) && sum(a, memo) => Some(0),
                    Pred::Ule if part(b, a) && sum(b, memo) => Some(1),
                    Pred::Eq if x.1 < y.0 || y.1 < x.0 => Some(0),
                    Pred::Eq if x.0 == x.1 && x == y => Some(1),
                    Pred::Ult if x.1 < y.0 => Some(1),
                    Pred::Ult if x.0 >= y.1 => Some(0),
                    Pred::Ule if x.1 <= y.0 => Some(1),
                    Pred::Ule if x.0 > y.1 => Some(0),
                    Pred::Slt | Pred::Sle => {
                        // flip the sign bit: an order-preserving map when both ends have one sign
                        let f = |r: (u128, u128)| -> Option<(u128, u128)> {
                            if (r.0 < h) == (r.1 < h) { Some((r.0 ^ h, r.1 ^ h)) } else { None }
                        };
                        match (f(x), f(y)) {
                            (Some(x), Some(y)) if p == Pred::Slt => {
                                if x.1 < y.0 { Some(1) } else if x.0 >= y.1 { Some(0) } else { None }
                            }
                            (Some(x), Some(y)) => {
                                if x.1 <= y.0 { Some(1) } else if x.0 > y.1 { Some(0) } else { None }
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                };
                match v {
                    Some(v) => (v, v),
                    None => full,
                }
            }
            Node::Ite(c, a, b) => {
                let c = self.range(c, dom, memo);
                let (a, b) = (self.range(a, dom, memo), self.range(b, dom, memo));
                match c {
                    (1, 1) => a,
                    (0, 0) => b,
                    _ => (a.0.min(b.0), a.1.max(b.1)),
                }
            }
            Node::Sext(a) => {
                let aw = self.width(a);
                let x = self.range(a, dom, memo);
                if x.1 >> (aw - 1) == 0 { x } else { full }
            }
            Node::Extract(a, lo) => {
                let x = self.range(a, dom, memo);
                if lo == 0 && x.1 <= m { x } else if x.1 >> lo <= m { (x.0 >> lo, x.1 >> lo) } else { full }
            }
            Node::Concat(a, b) => {
                let bw = self.width(b);
                let (x, y) = (self.range(a, dom, memo), self.range(b, dom, memo));
                ((x.0 << bw) | y.0, (x.1 << bw) | y.1)
            }
        };
        memo.insert(e, r);
        r
    }

    /// Evaluate under a full assignment of the variables.
    pub fn eval(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128, Fx>) -> u128 {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let inf = self.nodes[e as usize];
        let w = inf.w as u32;
        let r = match inf.node {
            Node::Const(c) => c,
            Node::Var(v) => model[v as usize] & mask(w),
            Node::Lut(v, t) => self.tables[t as usize][(model[v as usize] & 255) as usize] as u128,
            Node::Bin(op, a, b) => bin_c(op, w, self.eval(a, model, memo), self.eval(b, model, memo)),
            Node::Cmp(p, a, b) => {
                cmp_c(p, self.width(a), self.eval(a, model, memo), self.eval(b, model, memo)) as u128
            }
            Node::Ite(c, a, b) => {
                if self.eval(c, model, memo) & 1 == 1 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            Node::Sext(a) => sx(self.eval(a, model, memo), self.width(a)) as u128 & mask(w),
            Node::Extract(a, lo) => (self.eval(a, model, memo) >> lo) & mask(w),
            Node::Concat(a, b) => (self.eval(a, model, memo) << self.width(b)) | self.eval(b, model, memo),
        };
        memo.insert(e, r);
        r
    }

    fn gcd_of(&self, e: E, dom: &dyn Fn(u32) -> [u64; 4]) -> u128 {
        fn g(a: u128, b: u128) -> u128 {
            if b == 0 { a } else { g(b, a % b) }
        }
        match self.nodes[e as usize].node {
            Node::Const(c) => c,
            Node::Lut(v, t) => {
                let d = dom(v);
                let t = &self.tables[t as usize];
                (0..256).filter(|i| d[i >> 6] >> (i & 63) & 1 == 1).fold(0, |a, i| g(a, t[i] as u128))
            }
            Node::Bin(BinOp::Mul, a, b) => match self.cst(b) {
                Some(k) => k * self.gcd_of(a, dom),
                None => 1,
            },
            Node::Bin(BinOp::Add, a, b) => g(self.gcd_of(a, dom), self.gcd_of(b, dom)),
            Node::Concat(a, b) if self.cst(a) == Some(0) => self.gcd_of(b, dom),
            Node::Concat(a, b) if self.cst(b) == Some(0) => self.gcd_of(a, dom) << self.width(b),
            _ => 1,
        }
    }

    /// Comparisons of a positional number (digits times powers) with a constant, taken digit by digit.
    /// The result is equivalent to `e` when every byte variable is within its domain.
    pub fn digits(&mut self, e: E, dom: &dyn Fn(u32) -> [u64; 4], depth: u32) -> Val {
        let inf = self.nodes[e as usize];
        let me = Val { c: 0, e };
        if inf.w != 1 || depth > 64 || self.single(e).is_some() {
            return self.val(e);
        }
        let (p, a, b) = match inf.node {
            Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), a, b) => {
                let (x, y) = (self.digits(a, dom, depth + 1), self.digits(b, dom, depth + 1));
                return self.bin(op, 1, x, y);
            }
            Node::Cmp(p, a, b) => (p, a, b),
            _ => return me,
        };
        let w = self.width(a);
        if p == Pred::Ult {
            // wrap-around of X + digit: by the value of the digit
            if let Node::Bin(BinOp::Add, l, r) = self.nodes[a as usize].node {
                for (x, d) in [(l, r), (r, l)] {
                    if x != b {
                        continue;
                    }
                    if let (Some(v), Some(t)) = (self.single(d), self.table(d)) {
                        let dm = dom(v);
                        let mut vs: Vec<u64> = (0..256).filter(|i| dm[i >> 6] >> (i & 63) & 1 == 1).map(|i| t[i]).collect();
                        vs.sort();
                        vs.dedup();
                        if vs.len() > 16 {
                            continue;
                        }
                        let mut r = Val::k(0);
                        for k in vs.into_iter().filter(|k| *k != 0) {
                            let top = mask(w) - k as u128;
                            let Some(le) = self.digit_cmp(x, top + 1, false, dom, depth) else { return me };
                            let (gt, dv) = (self.not1(le), self.val(d));
                            let is = self.cmp(Pred::Eq, w, dv, Val::k(k as u128));
                            let both = self.bin(BinOp::And, 1, is, gt);
                            r = self.bin(BinOp::Or, 1, r, both);
                        }
                        return r;
                    }
                }
            }
        }
        let mut memo = HashMap::default();
        let (ra, rb) = (self.range(a, dom, &mut memo), self.range(b, dom, &mut memo));
        let signed = matches!(p, Pred::Slt | Pred::Sle);
        if signed && (ra.1 >> (w - 1) != 0 || rb.1 >> (w - 1) != 0) {
            return me;
        }
        // as X == k, X < k or not (X < k)
        let (x, k, eq, neg) = match (self.cst(a), self.cst(b), p) {
            (None, Some(k), Pred::Eq) => (a, k, true, false),
            (Some(k), None, Pred::Eq) => (b, k, true, false),
            (None, Some(k), Pred::Ult | Pred::Slt) => (a, k, false, false),
            (None, Some(k), Pred::Ule | Pred::Sle) => (a, k + 1, false, false),
            (Some(k), None, Pred::Ult | Pred::Slt) => (b, k + 1, false, true),
            (Some(k), None, Pred::Ule | Pred::Sle) => (b, k, false, true),
            _ => return me,
        };
        let r = self.digit_cmp(x, k, eq, dom, depth);
        match r {
            Some(r) if neg => self.not1(r),
            Some(r) => r,
            None => me,
        }
    }

    /// `x == k` or `x < k` (k may be one past the largest value)
    fn digit_cmp(&mut self, x: E, k: u128, eq: bool, dom: &dyn Fn(u32) -> [u64; 4], depth: u32) -> Option<Val> {
        if depth > 64 {
            return None;
        }
        let w = self.width(x);
        let mut memo = HashMap::default();
        let rx = self.range(x, dom, &mut memo);
        if !eq && rx.1 < k || eq && rx == (k, k) {
            return Some(Val::k(1));
        }
        if rx.0 >= k && !eq || eq && (k < rx.0 || k > rx.1) {
            return Some(Val::k(0));
        }
        if self.single(x).is_some() {
            let v = self.val(x);
            return Some(self.cmp(if eq { Pred::Eq } else { Pred::Ult }, w, v, Val::k(k)));
        }
        match self.nodes[x as usize].node {
            Node::Concat(a, b) if self.cst(a) == Some(0) => self.digit_cmp(b, k, eq, dom, depth + 1),
            Node::Concat(a, b) if self.cst(b) == Some(0) => {
                let m = 1u128 << self.width(b);
                if eq && k % m != 0 {
                    return Some(Val::k(0));
                }
                self.digit_cmp(a, if eq { k / m } else { k.div_ceil(m) }, eq, dom, depth + 1)
            }
            Node::Bin(BinOp::Mul, a, b) => {
                let m = self.cst(b)?;
                let ra = self.range(a, dom, &mut memo);
                if ra.1.checked_mul(m)? > mask(w) || m == 0 {
                    return None;
                }
                if eq && k % m != 0 {
                    return Some(Val::k(0));
                }
                self.digit_cmp(a, if eq { k / m } else { k.div_ceil(m) }, eq, dom, depth + 1)
            }
            Node::Bin(BinOp::Add, a, b) => {
                let (ra, rb) = (self.range(a, dom, &mut memo), self.range(b, dom, &mut memo));
                if ra.1.checked_add(rb.1)? > mask(w) {
                    return None;
                }
                for (h, l, rl) in [(a, b, rb), (b, a, ra)] {
                    let g = self.gcd_of(h, dom);
                    if g <= 1 || rl.1 >= g {
                        continue;
                    }
                    let (kh, kl) = (k / g * g, k % g);
                    let he = self.digit_cmp(h, kh, true, dom, depth + 1)?;
                    let le = self.digit_cmp(l, kl, eq, dom, depth + 1)?;
                    let both = self.bin(BinOp::And, 1, he, le);
                    if eq {
                        return Some(both);
                    }
                    let hl = self.digit_cmp(h, kh, false, dom, depth + 1)?;
                    return Some(self.bin(BinOp::Or, 1, hl, both));
                }
                None
            }
            _ => None,
        }
    }

    /// for debugging
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let s = |e: E| self.show(e, depth - 1);
        match self.nodes[e as usize].node {
            Node::Const(c) => format!("{c:#x}"),
            Node::Var(v) => format!("v{v}"),
            Node::Lut(v, t) => format!("L{t}(v{v})"),
            Node::Bin(o, a, b) => format!("({o:?} {} {})", s(a), s(b)),
            Node::Cmp(o, a, b) => format!("({o:?} {} {})", s(a), s(b)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            Node::Sext(a) => format!("(sext {})", s(a)),
            Node::Extract(a, l) => format!("(x{}+{} {})", l, self.nodes[e as usize].w, s(a)),
            Node::Concat(a, b) => format!("{}.{}", s(a), s(b)),
        }
    }
}
