//! Forking interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::{Fault, Mem};
use crate::models::Model;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub ret: R,
    pub sp: u64,
    pub regs: Vec<Val>,
}

impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame { f: self.f, pc: self.pc, ret: self.ret, sp: self.sp, regs: self.regs.clone() }
    }
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub sp: u64,
    pub brk: u64,
    pub free: [u32; 65],
    pub dom: Vec<[u64; 4]>,
    pub model: Vec<u128>,
    /// path conditions that are not domain restrictions
    pub pcs: Rc<Vec<E>>,
    pub entangled: u128,
    pub facts: Rc<Vec<(E, bool)>>,
    pub unforced: Rc<Vec<E>>,
    pub steps: u64,
    pub notes: Rc<Vec<Val>>,
    pub forks: u32,
}

#[derive(Debug)]
pub enum Stop {
    /// path is finished (or dead)
    End,
    Violation(String),
    Unsupported(String),
}

type X<T> = Result<T, Stop>;

impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::Unsupported(format!("memory fault at {:#x}", f.0))
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub inputs: Vec<u128>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub prunes: u64,
    pub prunes_audited: u64,
    pub max_vars: u64,
    pub reach: BTreeMap<u64, u64>,
    pub violations: BTreeMap<String, Violation>,
    pub incomplete: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<u128>, Vec<u128>)>,
    pub seen_fn: HashSet<u32>,
}

pub struct Opts {
    pub max_steps: u64,
    pub deadline: Option<Instant>,
    pub sample_every: u64,
    pub audit: bool,
    pub concrete: Option<Vec<u128>>,
    pub max_violations: usize,
    pub params: Vec<u64>,
    pub trace: bool,
}

pub struct Engine {
    pub prog: &'static Prog,
    pub cx: Ctx,
    pub solver: Solver,
    hard: HashMap<E, bool, Fx>,
    pub work: Vec<State>,
    pub rep: Report,
    pub opts: Opts,
    pool: Vec<Vec<Val>>,
    audited: HashSet<(E, [u64; 4])>,
    pub sites: HashMap<(u32, u32), u64>,
    pub trace_calls: Option<String>,
    var_tab: HashMap<(u32, u32), Val>,
}

fn dcount(d: &[u64; 4]) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
fn dand(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dminus(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
fn dempty(a: &[u64; 4]) -> bool {
    a.iter().all(|x| *x == 0)
}
fn dfirst(a: &[u64; 4]) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
fn dhas(a: &[u64; 4], v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}

impl State {
    pub fn new(mem: Mem) -> State {
        let mut s = State {
            mem,
            cur: Frame { f: 0, pc: 0, ret: 0, sp: STACK_BASE, regs: vec![] },
            stack: vec![],
            sp: STACK_BASE,
            brk: HEAP_BASE,
            free: [0; 65],
            dom: vec![],
            model: vec![],
            pcs: Rc::new(vec![]),
            entangled: 0,
            facts: Rc::new(vec![]),
            unforced: Rc::new(vec![]),
            steps: 0,
            notes: Rc::new(vec![]),
            forks: 0,
        };
        s.mem.map(STACK_BASE, STACK_END - STACK_BASE);
        s
    }

    fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let sz = (size.max(1) + 15) & !15;
        let cls = (sz / 16) as usize;
        if cls <= 64 && align <= 16 && self.free[cls] != 0 {
            let p = self.free[cls] as u64;
            let next = self.mem.load_c(p, 4).unwrap().unwrap() as u32;
            self.free[cls] = next;
            self.mem.store_c(p - 16, 8, size as u128).unwrap();
            return p;
        }
        let mut p = self.brk + 16;
        if align > 16 {
            p = (p + align - 1) & !(align - 1);
        }
        self.brk = p + sz;
        self.mem.map(p - 16, sz + 16);
        self.mem.store_c(p - 16, 8, size as u128).unwrap();
        p
    }

    fn free(&mut self, p: u64) {
        if p == 0 {
            return;
        }
        let size = self.mem.load_c(p - 16, 8).unwrap().unwrap() as u64;
        let sz = (size.max(1) + 15) & !15;
        if p + sz == self.brk {
            self.brk = p - 16;
            return;
        }
        let cls = (sz / 16) as usize;
        if cls <= 64 {
            self.mem.store_c(p, 4, self.free[cls] as u128).unwrap();
            self.free[cls] = p as u32;
        }
    }
}

macro_rules! getv {
    ($self:expr, $st:expr, $o:expr) => {{
        let o: O = $o;
        if o & KBIT != 0 {
            unsafe { *$self.prog.consts.get_unchecked((o & !KBIT) as usize) }
        } else {
            unsafe { *$st.cur.regs.get_unchecked(o as usize) }
        }
    }};
}

impl Engine {
    pub fn new(prog: &'static Prog, opts: Opts, timeout_ms: u32) -> Engine {
        Engine {
            prog,
            cx: Ctx::new(),
            solver: Solver::new(timeout_ms),
            hard: HashMap::default(),
            work: vec![],
            rep: Report::default(),
            opts,
            pool: vec![],
            audited: HashSet::new(),
            sites: HashMap::new(),
            trace_calls: std::env::var("POSYM_CALLS").ok(),
            var_tab: HashMap::new(),
        }
    }

    pub fn start(&mut self, entry: &str) {
        let f = *self.prog.by_name.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let mut st = State::new(self.prog.mem.clone());
        st.cur.f = f;
        st.cur.regs = vec![Val::default(); self.prog.funcs[f as usize].nregs as usize];
        self.work.push(st);
    }

    fn incomplete(&mut self, why: String) {
        *self.rep.incomplete.entry(why).or_insert(0) += 1;
    }

    // ---------------------------------------------------------------- decisions

    /// Simplify under the domains of the path.
    fn simp(&mut self, st: &State, e: E) -> Val {
        let vars = self.cx.info(e).vars;
        let mut memo: HashMap<E, Val, Fx> = HashMap::default();
        let dom = &st.dom;
        self.cx.subst(e, &mut memo, vars, &|cx, e, v| {
            let d = &dom[v as usize];
            let t = match cx.info(e).node {
                Node::Lut(_, t) => &cx.tables[t as usize],
                _ => {
                    if cx.var_w[v as usize] == 8 && dcount(d) == 1 {
                        return Some(dfirst(d) as u128);
                    }
                    return None;
                }
            };
            let mut first = None;
            for i in 0..4 {
                let mut x = d[i];
                while x != 0 {
                    let b = i * 64 + x.trailing_zeros() as usize;
                    x &= x - 1;
                    match first {
                        None => first = Some(t[b]),
                        Some(f) if f != t[b] => return None,
                        _ => {}
                    }
                }
            }
            first.map(|x| x as u128)
        })
    }

    /// Path conditions (transitively) sharing variables with `vars`, and the domains involved.
    fn closure(&self, st: &State, mut vars: u128) -> (Vec<E>, Vec<(u32, [u64; 4])>) {
        let mut cons = vec![];
        let mut used = vec![false; st.pcs.len()];
        loop {
            let mut ch = false;
            for (i, &e) in st.pcs.iter().enumerate() {
                if !used[i] && self.cx.info(e).vars & vars != 0 {
                    used[i] = true;
                    cons.push(e);
                    vars |= self.cx.info(e).vars;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut doms = vec![];
        let mut v = vars & self.cx.byte_vars;
        while v != 0 {
            let i = v.trailing_zeros();
            v &= v - 1;
            doms.push((i, st.dom[i as usize]));
        }
        (cons, doms)
    }

    fn merge_model(st: &mut State, m: &[(u32, u128)]) {
        for &(v, x) in m {
            st.model[v as usize] = x;
        }
    }

    /// Does the expression hold arithmetic that is hard for a bit-level solver?
    fn hard(&mut self, e: E) -> bool {
        if let Some(h) = self.hard.get(&e) {
            return *h;
        }
        let r = match self.cx.info(e).node {
            Node::Const(_) | Node::Var(_) | Node::Lut(..) => false,
            Node::Bin(BinOp::Mul | BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem, ..) => true,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => self.hard(a) | self.hard(b),
            Node::Ite(c, a, b) => self.hard(c) | self.hard(a) | self.hard(b),
            Node::Sext(a) | Node::Extract(a, _) => self.hard(a),
        };
        self.hard.insert(e, r);
        r
    }

    /// The solver's answer on a conjunction; hard arithmetic is first brought into a normal form
    /// under the domains (which are part of the conjunction).
    fn query(&mut self, cons: &[E], doms: &[(u32, [u64; 4])], model: bool) -> Res {
        if !cons.iter().any(|e| self.hard(*e)) {
            return self.solver.check(&self.cx, cons, doms, model);
        }
        let mut d = vec![[!0u64; 4]; 128];
        for (v, s) in doms {
            d[*v as usize] = *s;
        }
        let mut out = vec![];
        for e in cons {
            let v = self.cx.normal(*e, &d);
            let mut v = if v.e != 0 { self.cx.digits(v.e, &|v| d[v as usize], 0) } else { v };
            if v.e != 0 {
                match self.cx.range(v.e, &|v| d[v as usize], &mut HashMap::default()) {
                    (0, 0) => v = Val::k(0),
                    (1, 1) => v = Val::k(1),
                    _ => {}
                }
            }
            if v.e != 0 {
                v = self.cx.narrow(v.e, &d, &mut HashMap::default(), &mut HashMap::default());
            }
            if v.e == 0 {
                if v.c & 1 == 0 {
                    return Res::Unsat;
                }
                continue;
            }
            out.push(v.e);
        }
        self.solver.check(&self.cx, &out, doms, model)
    }

    fn audit(&mut self, e: E, d: [u64; 4], v: u32, verdict: bool) {
        // the decision procedure on byte domains is confirmed by the solver
        self.rep.prunes += 1;
        if !self.opts.audit || !self.audited.insert((e, d)) {
            return;
        }
        let c = if verdict {
            let n = self.cx.not1(Val { c: 0, e });
            n.e
        } else {
            e
        };
        if c == 0 {
            return;
        }
        self.rep.prunes_audited += 1;
        match self.solver.check(&self.cx, &[c], &[(v, d)], false) {
            Res::Unsat => {}
            Res::Sat(_) => self.incomplete("solver contradicts a domain decision".into()),
            Res::Unknown => self.incomplete("solver gave no answer on a domain decision".into()),
        }
    }

    /// Restrict byte variable `v` to `nd`; false when that is infeasible.
    fn restrict(&mut self, st: &mut State, v: u32, nd: [u64; 4]) -> bool {
        if dempty(&nd) {
            return false;
        }
        st.dom[v as usize] = nd;
        if st.entangled >> v & 1 == 1 {
            if dhas(&nd, st.model[v as usize] as u8) {
                return true;
            }
            let (cons, doms) = self.closure(st, 1 << v);
            match self.query(&cons, &doms, true) {
                Res::Sat(m) => {
                    Self::merge_model(st, &m);
                    true
                }
                Res::Unsat => false,
                Res::Unknown => {
                    self.incomplete("solver gave no answer".into());
                    true
                }
            }
        } else {
            if !dhas(&nd, st.model[v as usize] as u8) {
                st.model[v as usize] = dfirst(&nd) as u128;
            }
            true
        }
    }

    /// Add a condition already known to be satisfiable together with the path (the model is
    /// updated by the caller).
    fn add(&mut self, st: &mut State, e: E) {
        match self.cx.info(e).node {
            Node::Bin(BinOp::And, a, b) if self.cx.width(e) == 1 => {
                self.add(st, a);
                self.add(st, b);
                return;
            }
            _ => {}
        }
        if let Some(v) = self.cx.single(e) {
            let t = self.cx.truth_set(e);
            let nd = dand(&st.dom[v as usize], &t);
            st.dom[v as usize] = nd;
            if !dhas(&nd, st.model[v as usize] as u8) && st.entangled >> v & 1 == 0 {
                st.model[v as usize] = dfirst(&nd) as u128;
            }
            return;
        }
        if let Node::Const(_) = self.cx.info(e).node {
            return;
        }
        st.entangled |= self.cx.info(e).vars;
        Rc::make_mut(&mut st.pcs).push(e);
    }

    fn fork_site(&mut self, st: &State) {
        self.rep.forks += 1;
        *self.sites.entry((st.cur.f, st.cur.pc)).or_insert(0) += 1;
        if std::env::var_os("POSYM_SITES").is_some() {
            eprintln!("SITE {} {} {:?} {:?}", st.cur.pc, self.backtrace(st), st.model, (0..st.dom.len()).map(|i| st.dom[i].iter().map(|x| x.count_ones()).sum::<u32>()).collect::<Vec<_>>());
        }
    }

    /// Decide a condition, forking when both outcomes are possible. The sibling re-executes the
    /// current instruction.
    fn decide(&mut self, st: &mut State, c: Val) -> X<bool> {
        if c.e == 0 {
            return Ok(c.c & 1 == 1);
        }
        let mut e = c.e;
        if self.cx.single(e).is_none() {
            let s = self.simp(st, e);
            if s.e == 0 {
                return Ok(s.c & 1 == 1);
            }
            e = s.e;
        }
        if let Some(v) = self.cx.single(e) {
            let t = self.cx.truth_set(e);
            let d = st.dom[v as usize];
            let (dt, df) = (dand(&d, &t), dminus(&d, &t));
            if dempty(&dt) {
                self.audit(e, d, v, false);
                return Ok(false);
            }
            if dempty(&df) {
                self.audit(e, d, v, true);
                return Ok(true);
            }
            if st.entangled >> v & 1 == 1 {
                let mut sib = st.clone();
                let okf = self.restrict(&mut sib, v, df);
                let okt = self.restrict(st, v, dt);
                return match (okt, okf) {
                    (true, true) => {
                        self.fork_site(st);
                        st.forks += 1;
                        sib.forks += 1;
                        self.work.push(sib);
                        Ok(true)
                    }
                    (true, false) => Ok(true),
                    (false, true) => {
                        *st = sib;
                        Ok(false)
                    }
                    (false, false) => Err(Stop::End),
                };
            }
            let mut sib = st.clone();
            self.restrict(&mut sib, v, df);
            self.restrict(st, v, dt);
            self.fork_site(st);
            st.forks += 1;
            sib.forks += 1;
            self.work.push(sib);
            return Ok(true);
        }
        for (x, b) in st.facts.iter() {
            if *x == e {
                return Ok(*b);
            }
        }
        let dom = &st.dom;
        match self.cx.range(e, &|v| dom[v as usize], &mut HashMap::default()) {
            (0, 0) => return Ok(false),
            (1, 1) => return Ok(true),
            _ => {}
        }
        let dom = st.dom.clone();
        let x = self.cx.digits(e, &|v| dom[v as usize], 0);
        if x.e == 0 {
            return Ok(x.c & 1 == 1);
        }
        if self.cx.single(x.e).is_some() {
            return self.decide(st, x);
        }
        e = x.e;
        if std::env::var_os("POSYM_SITES").is_some() {
            eprintln!("DECIDE {}", self.cx.show(e, 8));
        }
        let mut memo: HashMap<E, u128, Fx> = HashMap::default();
        let known = self.cx.eval(e, &st.model, &mut memo) & 1 == 1;
        let ne = self.cx.not1(Val { c: 0, e });
        let other = if known { ne.e } else { e };
        let this = if known { e } else { ne.e };
        let vars = self.cx.info(e).vars;
        let (mut cons, doms) = self.closure(st, vars);
        cons.push(other);
        let r = self.query(&cons, &doms, true);
        let m = match r {
            Res::Unsat => {
                Rc::make_mut(&mut st.facts).push((e, known));
                return Ok(known);
            }
            Res::Sat(m) => m,
            Res::Unknown => {
                self.incomplete("solver gave no answer".into());
                vec![]
            }
        };
        let mut sib = st.clone();
        Self::merge_model(&mut sib, &m);
        self.add(&mut sib, other);
        Rc::make_mut(&mut sib.facts).push((e, !known));
        self.add(st, this);
        Rc::make_mut(&mut st.facts).push((e, known));
        self.fork_site(st);
        st.forks += 1;
        sib.forks += 1;
        self.work.push(sib);
        Ok(known)
    }

    /// The condition, or its value if the path leaves one only; never forks.
    fn forced(&mut self, st: &mut State, c: Val) -> Val {
        let mut e = c.e;
        if self.cx.single(e).is_none() {
            let s = self.simp(st, e);
            if s.e == 0 {
                return s;
            }
            e = s.e;
        }
        if let Some(v) = self.cx.single(e) {
            let t = self.cx.truth_set(e);
            let d = st.dom[v as usize];
            for (r, x) in [(false, dand(&d, &t)), (true, dminus(&d, &t))] {
                if dempty(&x) {
                    self.audit(e, d, v, r);
                    return Val::k(r as u128);
                }
            }
            return Val { c: 0, e };
        }
        for (x, b) in st.facts.iter() {
            if *x == e {
                return Val::k(*b as u128);
            }
        }
        if st.unforced.contains(&e) {
            return Val { c: 0, e };
        }
        let dom = &st.dom;
        match self.cx.range(e, &|v| dom[v as usize], &mut HashMap::default()) {
            (0, 0) => return Val::k(0),
            (1, 1) => return Val::k(1),
            _ => {}
        }
        let mut memo: HashMap<E, u128, Fx> = HashMap::default();
        let known = self.cx.eval(e, &st.model, &mut memo) & 1 == 1;
        let ne = self.cx.not1(Val { c: 0, e });
        let (mut cons, doms) = self.closure(st, self.cx.info(e).vars);
        cons.push(if known { ne.e } else { e });
        if let Res::Unsat = self.query(&cons, &doms, false) {
            Rc::make_mut(&mut st.facts).push((e, known));
            return Val::k(known as u128);
        }
        Rc::make_mut(&mut st.unforced).push(e);
        Val { c: 0, e }
    }

    fn distinct(&self, st: &State, e: E, v: u32) -> Vec<(u64, [u64; 4])> {
        let d = &st.dom[v as usize];
        let t = self.cx.table(e).expect("table");
        let mut out: Vec<(u64, [u64; 4])> = vec![];
        for i in 0..256usize {
            if d[i >> 6] >> (i & 63) & 1 == 0 {
                continue;
            }
            let x = t[i];
            match out.iter_mut().find(|(y, _)| *y == x) {
                Some((_, s)) => s[i >> 6] |= 1 << (i & 63),
                None => {
                    let mut s = [0u64; 4];
                    s[i >> 6] |= 1 << (i & 63);
                    out.push((x, s));
                }
            }
        }
        out
    }

    /// Split the path on the values of a single-variable expression.
    fn split(&mut self, st: &mut State, e: E, v: u32) -> X<u64> {
        let groups = self.distinct(st, e, v);
        let mut first: Option<(u64, State)> = None;
        if groups.len() > 1 {
            self.fork_site(st);
        }
        let n = groups.len();
        for (x, s) in groups {
            if n == 1 {
                return Ok(x);
            }
            let mut sib = st.clone();
            if self.restrict(&mut sib, v, s) {
                sib.forks += 1;
                if first.is_none() {
                    first = Some((x, sib));
                } else {
                    self.rep.forks += 1;
                    self.work.push(sib);
                }
            }
        }
        match first {
            Some((x, s)) => {
                *st = s;
                Ok(x)
            }
            None => Err(Stop::End),
        }
    }

    /// Make a value concrete, forking over its possible values.
    fn concretize(&mut self, st: &mut State, v: Val) -> X<u128> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let mut e = v.e;
        loop {
            if self.cx.single(e).is_none() {
                let s = self.simp(st, e);
                if s.e == 0 {
                    return Ok(s.c);
                }
                e = s.e;
            }
            if let Some(var) = self.cx.single(e) {
                return Ok(self.split(st, e, var)? as u128);
            }
            // pick the single-variable subexpression with the fewest values
            let mut best: Option<(usize, E, u32)> = None;
            let mut seen: HashSet<E> = HashSet::new();
            let mut todo = vec![e];
            while let Some(x) = todo.pop() {
                if !seen.insert(x) {
                    continue;
                }
                if let Some(var) = self.cx.single(x) {
                    let n = self.distinct(st, x, var).len();
                    if n > 1 && best.map_or(true, |b| n < b.0) {
                        best = Some((n, x, var));
                    }
                    continue;
                }
                match self.cx.info(x).node {
                    Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => todo.extend([a, b]),
                    Node::Ite(a, b, c) => todo.extend([a, b, c]),
                    Node::Sext(a) | Node::Extract(a, _) => todo.push(a),
                    _ => {}
                }
            }
            if let Some((_, x, var)) = best {
                self.split(st, x, var)?;
                continue;
            }
            let mut memo: HashMap<E, u128, Fx> = HashMap::default();
            let m = self.cx.eval(e, &st.model, &mut memo);
            let w = self.cx.width(e);
            let c = self.cx.cmp(Pred::Eq, w, Val { c: 0, e }, Val::k(m));
            if self.decide(st, c)? {
                return Ok(m);
            }
        }
    }

    /// Concretize a register operand in place.
    fn cop(&mut self, st: &mut State, o: O) -> X<u128> {
        let v = getv!(self, st, o);
        if v.e == 0 {
            return Ok(v.c);
        }
        let c = self.concretize(st, v)?;
        st.cur.regs[o as usize] = Val::k(c);
        Ok(c)
    }

    // ---------------------------------------------------------------- memory

    /// The number of bytes to allocate. One that depends on the input is rounded up to a step, so that
    /// not every size is a path of its own.
    fn alloc_size(&mut self, st: &mut State, o: O) -> X<u64> {
        let v = getv!(self, st, o);
        if v.e == 0 {
            return Ok(v.c as u64);
        }
        let mut r = u64::MAX;
        for s in [30, 26, 20, 16, 13, 10, 8] {
            let big = self.cx.cmp(Pred::Ult, 64, Val::k(1 << s), v);
            if self.decide(st, big)? {
                return Ok(r);
            }
            r = 1 << s;
        }
        Ok(self.cop(st, o)? as u64)
    }

    fn load_val(&mut self, st: &State, addr: u64, w: u32) -> X<Val> {
        let n = ((w + 7) / 8) as usize;
        if let Some(c) = st.mem.load_c(addr, n)? {
            return Ok(Val::k(c & mask(w)));
        }
        let mut acc = Val::k(0);
        for i in 0..n {
            let (b, e) = st.mem.get(addr + i as u64)?;
            let v = if e != 0 { Val { c: 0, e } } else { Val::k(b as u128) };
            acc = if i == 0 { v } else { self.cx.concat(v, 8, acc, 8 * i as u32) };
        }
        if w % 8 != 0 {
            acc = self.cx.extract(acc, 8 * n as u32, 0, w);
        }
        Ok(acc)
    }

    fn store_val(&mut self, st: &mut State, addr: u64, v: Val, w: u32) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        if v.e == 0 {
            st.mem.store_c(addr, n, v.c)?;
            return Ok(());
        }
        let v = if w % 8 != 0 { self.cx.zext(v, w, 8 * n as u32) } else { v };
        for i in 0..n {
            let b = self.cx.extract(v, 8 * n as u32, 8 * i as u32, 8);
            st.mem.put(addr + i as u64, b.c as u8, b.e)?;
        }
        Ok(())
    }

    /// Load through a symbolic address: a table when the address depends on one byte only.
    fn load_sym(&mut self, st: &mut State, o: O, off: u64, w: u32) -> X<Val> {
        let v = getv!(self, st, o);
        let s = self.simp(st, v.e);
        st.cur.regs[o as usize] = s;
        if s.e == 0 {
            return self.load_val(st, (s.c as u64).wrapping_add(off), w);
        }
        if let (Some(var), true) = (self.cx.single(s.e), w <= 64) {
            let groups = self.distinct(st, s.e, var);
            let n = ((w + 7) / 8) as usize;
            let mut t = [0u64; 256];
            let mut ok = true;
            let mut first = None;
            for (a, set) in &groups {
                match st.mem.load_c(a.wrapping_add(off), n) {
                    Ok(Some(x)) => {
                        let x = (x & mask(w)) as u64;
                        first.get_or_insert(x);
                        for i in 0..256usize {
                            if set[i >> 6] >> (i & 63) & 1 == 1 {
                                t[i] = x;
                            }
                        }
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                let d = st.dom[var as usize];
                for i in 0..256usize {
                    if d[i >> 6] >> (i & 63) & 1 == 0 {
                        t[i] = first.unwrap();
                    }
                }
                return Ok(self.cx.mk_lut(var, t, w));
            }
        }
        let a = self.cop(st, o)? as u64;
        self.load_val(st, a.wrapping_add(off), w)
    }

    fn bytes_eq(&mut self, st: &State, a: u64, b: u64, n: u64) -> X<Val> {
        let mut acc = Val::k(1);
        for i in 0..n {
            let x = self.load_val(st, a + i, 8)?;
            let y = self.load_val(st, b + i, 8)?;
            let c = self.cx.cmp(Pred::Eq, 8, x, y);
            if c.e == 0 {
                if c.c == 0 {
                    return Ok(Val::k(0));
                }
                continue;
            }
            acc = self.cx.bin(BinOp::And, 1, acc, c);
        }
        Ok(acc)
    }

    // ---------------------------------------------------------------- symbolic inputs

    fn new_var(&mut self, st: &mut State, w: u32, dom: [u64; 4]) -> Val {
        let i = st.dom.len() as u32;
        if let Some(k) = self.opts.concrete.as_ref() {
            let x = k.get(i as usize).copied().unwrap_or(0);
            st.dom.push(dom);
            st.model.push(x);
            return Val::k(x & mask(w));
        }
        st.dom.push(dom);
        st.model.push(dfirst(&dom) as u128);
        self.rep.max_vars = self.rep.max_vars.max(i as u64 + 1);
        // the variable identity is (position, width)
        if let Some(v) = self.var_tab.get(&(i, w)) {
            return *v;
        }
        let v = self.cx.var_at(i, w);
        self.var_tab.insert((i, w), v);
        v
    }

    fn full_model(&mut self, st: &State, extra: Option<E>) -> Option<Vec<u128>> {
        let mut m = st.model.clone();
        if let Some(e) = extra {
            let vars = self.cx.info(e).vars;
            let (mut cons, doms) = self.closure(st, vars);
            cons.push(e);
            match self.query(&cons, &doms, true) {
                Res::Sat(x) => {
                    for (v, y) in x {
                        m[v as usize] = y;
                    }
                }
                _ => return None,
            }
        }
        // re-check the whole model
        let mut memo: HashMap<E, u128, Fx> = HashMap::default();
        for &e in st.pcs.iter() {
            if self.cx.eval(e, &m, &mut memo) & 1 != 1 {
                return None;
            }
        }
        if let Some(e) = extra {
            if self.cx.eval(e, &m, &mut memo) & 1 != 1 {
                return None;
            }
        }
        Some(m)
    }

    /// Is the path's model a witness of its conditions (and of `extra`)?
    fn model_holds(&self, st: &State, extra: Option<E>) -> bool {
        for v in 0..st.dom.len() {
            if self.cx.byte_vars >> v & 1 == 1 && st.dom[v][(st.model[v] as usize & 255) >> 6] >> (st.model[v] & 63) & 1 == 0 {
                return false;
            }
        }
        let mut memo: HashMap<E, u128, Fx> = HashMap::default();
        st.pcs.iter().copied().chain(extra).all(|e| self.cx.eval(e, &st.model, &mut memo) & 1 == 1)
    }

    fn violation(&mut self, st: &State, what: String, cond: Option<E>) {
        if self.rep.violations.contains_key(&what) || self.rep.violations.len() >= self.opts.max_violations {
            return;
        }
        // the whole path condition goes to the solver once more
        let mut cons: Vec<E> = st.pcs.to_vec();
        cons.extend(cond);
        let doms: Vec<(u32, [u64; 4])> =
            (0..st.dom.len() as u32).filter(|v| self.cx.byte_vars >> v & 1 == 1).map(|v| (v, st.dom[v as usize])).collect();
        if self.opts.concrete.is_some() {
            self.rep.violations.insert(what.clone(), Violation { what, inputs: st.model.clone() });
            return;
        }
        let r = if self.model_holds(st, cond) { Res::Sat(vec![]) } else { self.query(&cons, &doms, true) };
        match r {
            Res::Sat(x) => {
                let mut m = st.model.clone();
                for (v, y) in x {
                    m[v as usize] = y;
                }
                self.rep.violations.insert(what.clone(), Violation { what, inputs: m });
            }
            Res::Unsat => self.rep.infeasible += 1,
            Res::Unknown => self.incomplete(format!("solver gave no answer on violation candidate {what}")),
        }
    }

    fn backtrace(&self, st: &State) -> String {
        let mut v: Vec<String> = vec![short(&self.prog.funcs[st.cur.f as usize].name)];
        for f in st.stack.iter().rev() {
            v.push(short(&self.prog.funcs[f.f as usize].name));
        }
        let repo = v.iter().position(|n| n.contains("poreader"));
        let k = repo.map_or(3, |p| p + 2).min(v.len()).min(14);
        v[..k].join(" < ")
    }

    fn finish(&mut self, st: &mut State) {
        self.rep.paths += 1;
        if !st.pcs.is_empty() {
            let doms: Vec<(u32, [u64; 4])> = (0..st.dom.len() as u32)
                .filter(|v| self.cx.byte_vars >> v & 1 == 1)
                .map(|v| (v, st.dom[v as usize]))
                .collect();
            let cons = st.pcs.to_vec();
            let r = if self.model_holds(st, None) { Res::Sat(vec![]) } else { self.query(&cons, &doms, true) };
            match r {
                Res::Sat(m) => Self::merge_model(st, &m),
                Res::Unsat => {
                    self.rep.infeasible += 1;
                    return;
                }
                Res::Unknown => {
                    self.incomplete("solver gave no answer on a complete path".into());
                    return;
                }
            }
        }
        if self.opts.sample_every > 0 && (self.rep.paths - 1) % self.opts.sample_every == 0 && self.rep.samples.len() < 64 {
            if let Some(m) = self.full_model(st, None) {
                let mut memo: HashMap<E, u128, Fx> = HashMap::default();
                let notes: Vec<u128> = st
                    .notes
                    .iter()
                    .map(|v| if v.e == 0 { v.c } else { self.cx.eval(v.e, &m, &mut memo) })
                    .collect();
                self.rep.samples.push((m, notes));
            }
        }
    }

    // ---------------------------------------------------------------- calls

    fn model_call(&mut self, st: &mut State, m: Model, f: u32, args: &[O], d: R) -> X<()> {
        let a = |i: usize| args[i];
        match m {
            Model::Nop | Model::Memo => {}
            Model::RetZero => st.cur.regs[d as usize] = Val::k(0),
            Model::RetMinus1w32 => st.cur.regs[d as usize] = Val::k(mask(32)),
            Model::RetOne => st.cur.regs[d as usize] = Val::k(1),
            Model::Errno => {
                let p = STACK_END - 64;
                st.mem.store_c(p, 4, 2)?;
                st.cur.regs[d as usize] = Val::k(p as u128);
            }
            Model::RetMinus1 => st.cur.regs[d as usize] = Val::k(mask(64)),
            Model::SymChoice => {
                let k = self.cop(st, a(0))? as u64;
                if k == 0 || k > 256 {
                    return Err(Stop::Unsupported("sym_choice bound".into()));
                }
                let mut dm = [0u64; 4];
                for i in 0..k as usize {
                    dm[i >> 6] |= 1 << (i & 63);
                }
                let v = self.new_var(st, 8, dm);
                // fork now, each sibling continues after the call
                if v.e == 0 {
                    st.cur.regs[d as usize] = v;
                    return Ok(());
                }
                let var = st.dom.len() as u32 - 1;
                if k > 1 {
                    self.rep.forks += k - 1;
                }
                for i in (1..k).rev() {
                    let mut s = st.clone();
                    let mut nd = [0u64; 4];
                    nd[(i >> 6) as usize] |= 1 << (i & 63);
                    self.restrict(&mut s, var, nd);
                    s.cur.regs[d as usize] = Val::k(i as u128);
                    s.cur.pc += 1;
                    s.forks += 1;
                    self.work.push(s);
                }
                let nd = [1u64, 0, 0, 0];
                self.restrict(st, var, nd);
                st.cur.regs[d as usize] = Val::k(0);
            }
            Model::SymBytes => {
                let p = self.cop(st, a(0))? as u64;
                let n = self.cop(st, a(1))? as u64;
                for i in 0..n {
                    let v = self.new_var(st, 8, [!0; 4]);
                    self.store_val(st, p + i, v, 8)?;
                }
            }
            Model::SymParam => {
                let i = self.cop(st, a(0))? as usize;
                let v = self.opts.params.get(i).copied().unwrap_or(0);
                st.cur.regs[d as usize] = Val::k(v as u128);
            }
            Model::SymU64 => {
                let v = self.new_var(st, 64, [0; 4]);
                st.cur.regs[d as usize] = v;
            }
            Model::SymAssume => {
                let v = getv!(self, st, a(0));
                let w = v;
                let c = if w.e == 0 { w } else { self.truncate1(w) };
                if c.e == 0 {
                    if c.c & 1 == 0 {
                        self.rep.assumed_away += 1;
                        return Err(Stop::End);
                    }
                    return Ok(());
                }
                // keep only the satisfying side
                let s = self.simp(st, c.e);
                if s.e == 0 {
                    if s.c & 1 == 0 {
                        self.rep.assumed_away += 1;
                        return Err(Stop::End);
                    }
                    return Ok(());
                }
                if let Some(var) = self.cx.single(s.e) {
                    let t = self.cx.truth_set(s.e);
                    let nd = dand(&st.dom[var as usize], &t);
                    if !self.restrict(st, var, nd) {
                        self.rep.assumed_away += 1;
                        return Err(Stop::End);
                    }
                    return Ok(());
                }
                let vars = self.cx.info(s.e).vars;
                let (mut cons, doms) = self.closure(st, vars);
                cons.push(s.e);
                match self.query(&cons, &doms, true) {
                    Res::Unsat => {
                        self.rep.assumed_away += 1;
                        return Err(Stop::End);
                    }
                    Res::Sat(m) => Self::merge_model(st, &m),
                    Res::Unknown => self.incomplete("solver gave no answer on an assumption".into()),
                }
                self.add(st, s.e);
            }
            Model::SymAssert => {
                let v = getv!(self, st, a(0));
                let id = self.cop(st, a(1))?;
                self.rep.asserts += 1;
                let c = if v.e == 0 { v } else { self.truncate1(v) };
                let c = if c.e != 0 { self.simp(st, c.e) } else { c };
                if c.e == 0 {
                    if c.c & 1 == 0 {
                        self.violation(st, format!("assert {id}"), None);
                        return Err(Stop::End);
                    }
                    return Ok(());
                }
                let n = self.cx.not1(c);
                self.rep.asserts_solver += 1;
                let vars = self.cx.info(c.e).vars;
                let (mut cons, doms) = self.closure(st, vars);
                cons.push(n.e);
                match self.query(&cons, &doms, true) {
                    Res::Unsat => {}
                    Res::Sat(_) => {
                        self.violation(st, format!("assert {id}"), Some(n.e));
                        // continue with the assertion holding, if it can
                        let (mut cons, doms) = self.closure(st, vars);
                        cons.push(c.e);
                        match self.query(&cons, &doms, true) {
                            Res::Sat(m) => {
                                Self::merge_model(st, &m);
                                self.add(st, c.e);
                            }
                            _ => return Err(Stop::End),
                        }
                    }
                    Res::Unknown => self.incomplete(format!("solver gave no answer on assert {id}")),
                }
            }
            Model::SymReach => {
                let id = self.cop(st, a(0))? as u64;
                *self.rep.reach.entry(id).or_insert(0) += 1;
            }
            Model::SymNote => {
                let v = getv!(self, st, a(0));
                Rc::make_mut(&mut st.notes).push(v);
            }
            Model::Malloc => {
                let n = self.alloc_size(st, a(0))?;
                if n > 1 << 30 {
                    st.cur.regs[d as usize] = Val::k(0);
                } else {
                    let p = st.alloc(n, 16);
                    st.cur.regs[d as usize] = Val::k(p as u128);
                }
            }
            Model::PosixMemalign => {
                let al = self.cop(st, a(1))? as u64;
                let n = self.cop(st, a(2))? as u64;
                let o = self.cop(st, a(0))? as u64;
                let p = st.alloc(n, al);
                st.mem.store_c(o, 8, p as u128)?;
                st.cur.regs[d as usize] = Val::k(0);
            }
            Model::Calloc => {
                let k = self.cop(st, a(1))? as u64;
                let n = if k == 1 { self.alloc_size(st, a(0))? } else { (self.cop(st, a(0))? as u64).saturating_mul(k) };
                if n > 1 << 30 {
                    st.cur.regs[d as usize] = Val::k(0);
                } else {
                    let p = st.alloc(n, 16);
                    st.mem.fill(p, n, 0, 0)?;
                    st.cur.regs[d as usize] = Val::k(p as u128);
                }
            }
            Model::Realloc => {
                let p = self.cop(st, a(0))? as u64;
                let n = self.alloc_size(st, a(1))?;
                if n > 1 << 30 {
                    st.cur.regs[d as usize] = Val::k(0);
                    return Ok(());
                }
                let old = if p == 0 { 0 } else { st.mem.load_c(p - 16, 8)?.unwrap() as u64 };
                let cap = (old.max(1) + 15) & !15;
                if p != 0 && n <= cap && n * 2 >= cap {
                    if (n.max(1) + 15) & !15 == cap {
                        st.mem.store_c(p - 16, 8, n as u128)?;
                    }
                    st.cur.regs[d as usize] = Val::k(p as u128);
                    return Ok(());
                }
                let q = st.alloc(n, 16);
                st.mem.copy(q, p, old.min(n))?;
                st.free(p);
                st.cur.regs[d as usize] = Val::k(q as u128);
            }
            Model::Free => {
                let p = self.cop(st, a(0))? as u64;
                st.free(p);
            }
            Model::Memcpy => {
                let (x, y, n) = (self.cop(st, a(0))? as u64, self.cop(st, a(1))? as u64, self.cop(st, a(2))? as u64);
                st.mem.copy(x, y, n)?;
                st.cur.regs[d as usize] = Val::k(x as u128);
            }
            Model::Memset => {
                let (x, n) = (self.cop(st, a(0))? as u64, self.cop(st, a(2))? as u64);
                let v = getv!(self, st, a(1));
                let b = self.cx.extract(v, 32, 0, 8);
                st.mem.fill(x, n, b.c as u8, b.e)?;
                st.cur.regs[d as usize] = Val::k(x as u128);
            }
            Model::Bcmp | Model::Memcmp => {
                let (x, y, n) = (self.cop(st, a(0))? as u64, self.cop(st, a(1))? as u64, self.cop(st, a(2))? as u64);
                if m == Model::Bcmp {
                    let e = self.bytes_eq(st, x, y, n)?;
                    let r = self.cx.ite(32, e, Val::k(0), Val::k(1));
                    st.cur.regs[d as usize] = r;
                } else {
                    // ordering: the first difference decides
                    let mut r = Val::k(0);
                    for i in (0..n).rev() {
                        let p = self.load_val(st, x + i, 8)?;
                        let q = self.load_val(st, y + i, 8)?;
                        let eq = self.cx.cmp(Pred::Eq, 8, p, q);
                        let lt = self.cx.cmp(Pred::Ult, 8, p, q);
                        let s = self.cx.ite(32, lt, Val::k(mask(32)), Val::k(1));
                        r = self.cx.ite(32, eq, r, s);
                    }
                    st.cur.regs[d as usize] = r;
                }
            }
            Model::Strlen => {
                let p = self.cop(st, a(0))? as u64;
                let mut n = 0;
                loop {
                    let v = self.load_val(st, p + n, 8)?;
                    let z = self.cx.cmp(Pred::Eq, 8, v, Val::k(0));
                    if self.decide(st, z)? {
                        break;
                    }
                    n += 1;
                }
                st.cur.regs[d as usize] = Val::k(n as u128);
            }
            Model::Getrandom => {
                let p = self.cop(st, a(0))? as u64;
                let n = self.cop(st, a(1))? as u64;
                st.mem.fill(p, n, 0, 0)?;
                st.cur.regs[d as usize] = Val::k(n as u128);
            }
            Model::Syscall => {
                let k = self.cop(st, a(0))?;
                if k == 318 {
                    let p = self.cop(st, a(1))? as u64;
                    let n = self.cop(st, a(2))? as u64;
                    st.mem.fill(p, n, 0, 0)?;
                    st.cur.regs[d as usize] = Val::k(n as u128);
                } else {
                    return Err(Stop::Unsupported(format!("syscall {k}")));
                }
            }
            Model::Panic => {
                let _ = f;
                let bt = self.backtrace(st);
                return Err(Stop::Violation(format!("panic in {bt}")));
            }
        }
        Ok(())
    }

    fn truncate1(&mut self, v: Val) -> Val {
        let w = self.cx.width(v.e);
        self.cx.extract(v, w, 0, 1)
    }

    fn enter(&mut self, st: &mut State, f: u32, args: &[O], d: R) -> X<()> {
        let fun = &self.prog.funcs[f as usize];
        if let Some(t) = &self.trace_calls {
            if fun.name.contains(t.as_str()) {
                let v: Vec<String> = args.iter().map(|o| { let v = getv!(self, st, *o); if v.e == 0 { format!("{:x}", v.c) } else { "sym".into() } }).collect();
                eprintln!("CALL {} {} {:?} {}", st.steps, short(&fun.name), v, self.backtrace(st));
            }
        }
        if let Some(m) = fun.model.filter(|m| *m != Model::Memo || args.iter().any(|o| getv!(self, st, *o).e != 0)) {
            self.model_call(st, m, f, args, d)?;
            st.cur.pc += 1;
            return Ok(());
        }
        if let Some(r) = fun.redirect {
            return self.enter(st, r, args, d);
        }
        if !fun.defined {
            return Err(Stop::Unsupported(format!("external function {}", fun.name)));
        }
        if args.len() != fun.nparams as usize {
            return Err(Stop::Unsupported(format!("arity of {}: {} vs {}", fun.name, args.len(), fun.nparams)));
        }
        if !st.dom.is_empty() {
            self.rep.seen_fn.insert(f);
        }
        let mut regs = self.pool.pop().unwrap_or_default();
        let n = fun.nregs as usize;
        if regs.len() < n {
            regs.resize(n, Val::default());
        } else {
            regs.truncate(n);
        }
        for (i, o) in args.iter().enumerate() {
            regs[i] = getv!(self, st, *o);
        }
        st.cur.pc += 1;
        let new = Frame { f, pc: 0, ret: d, sp: st.sp, regs };
        let old = std::mem::replace(&mut st.cur, new);
        st.stack.push(Rc::new(old));
        // return address and saved registers
        st.sp += 64;
        if st.sp > STACK_END - 4096 {
            return Err(Stop::Violation("stack exhausted".into()));
        }
        Ok(())
    }

    fn jump(&mut self, st: &mut State, fun: &'static Func, e: u32) {
        let ed = unsafe { fun.edges.get_unchecked(e as usize) };
        let c = &ed.copies;
        match c.len() {
            0 => {}
            1 => {
                let v = getv!(self, st, c[0].1);
                st.cur.regs[c[0].0 as usize] = v;
            }
            2 => {
                let v0 = getv!(self, st, c[0].1);
                let v1 = getv!(self, st, c[1].1);
                st.cur.regs[c[0].0 as usize] = v0;
                st.cur.regs[c[1].0 as usize] = v1;
            }
            n => {
                let mut buf = [Val::default(); 24];
                if n <= 24 {
                    for (i, (_, o)) in c.iter().enumerate() {
                        buf[i] = getv!(self, st, *o);
                    }
                    for (i, (d, _)) in c.iter().enumerate() {
                        st.cur.regs[*d as usize] = buf[i];
                    }
                } else {
                    let vs: Vec<Val> = c.iter().map(|(_, o)| getv!(self, st, *o)).collect();
                    for ((d, _), v) in c.iter().zip(vs) {
                        st.cur.regs[*d as usize] = v;
                    }
                }
            }
        }
        st.cur.pc = ed.pc;
    }

    // ---------------------------------------------------------------- main loop

    /// Runs a state to the end of its path; siblings are pushed to the work list.
    pub fn run(&mut self, mut st: State) {
        let start = st.steps;
        let r = self.run_inner(&mut st);
        self.rep.insts += st.steps - start;
        match r {
            Ok(()) => self.finish(&mut st),
            Err(Stop::End) => {}
            Err(Stop::Violation(w)) => {
                self.rep.paths += 1;
                self.violation(&st, w, None)
            }
            Err(Stop::Unsupported(w)) => {
                let bt = self.backtrace(&st);
                self.incomplete(format!("{w} in {bt}"));
            }
        }
        let regs = std::mem::take(&mut st.cur.regs);
        if self.pool.len() < 256 {
            self.pool.push(regs);
        }
    }

    fn run_inner(&mut self, st: &mut State) -> X<()> {
        let prog = self.prog;
        let limit = self.opts.max_steps;
        let mut fun: &'static Func = &prog.funcs[st.cur.f as usize];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let x = $v;
                unsafe { *st.cur.regs.get_unchecked_mut($d as usize) = x }
            }};
        }
        loop {
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > limit {
                    let bt = self.backtrace(st);
                    return Err(Stop::Violation(format!("no termination within {limit} steps ({bt})")));
                }
                if let Some(d) = self.opts.deadline {
                    if Instant::now() > d {
                        return Err(Stop::Unsupported("time budget".into()));
                    }
                }
            }
            let inst = unsafe { fun.code.get_unchecked(st.cur.pc as usize) };
            match inst {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (getv!(self, st, *a), getv!(self, st, *b));
                    let r = if x.e == 0 && y.e == 0 {
                        Val::k(bin_c(*op, *w as u32, x.c, y.c))
                    } else {
                        self.cx.bin(*op, *w as u32, x, y)
                    };
                    set!(*d, r);
                }
                Inst::Icmp { p, w, d, a, b } => {
                    let (x, y) = (getv!(self, st, *a), getv!(self, st, *b));
                    let r = if x.e == 0 && y.e == 0 {
                        Val::k(cmp_c(*p, *w as u32, x.c, y.c) as u128)
                    } else {
                        self.cx.cmp(*p, *w as u32, x, y)
                    };
                    set!(*d, r);
                }
                Inst::Select { w, d, c, a, b } => {
                    let k = getv!(self, st, *c);
                    let (x, y) = (getv!(self, st, *a), getv!(self, st, *b));
                    let r = if k.e == 0 {
                        if k.c & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    } else if *w >= 8 && x.e == 0 && y.e == 0 && x.c != y.c {
                        let (w, d) = (*w, *d);
                        let k = self.forced(st, k);
                        let r = match k.e {
                            0 if k.c & 1 == 1 => x,
                            0 => y,
                            _ => self.cx.ite(w as u32, k, x, y),
                        };
                        set!(d, r);
                        st.cur.pc += 1;
                        continue;
                    } else {
                        self.cx.ite(*w as u32, k, x, y)
                    };
                    set!(*d, r);
                }
                Inst::Zext { d, a, from, to } => {
                    let x = getv!(self, st, *a);
                    let r = if x.e == 0 { x } else { self.cx.zext(x, *from as u32, *to as u32) };
                    set!(*d, r);
                }
                Inst::Sext { d, a, from, to } => {
                    let x = getv!(self, st, *a);
                    let r = self.cx.sext(x, *from as u32, *to as u32);
                    set!(*d, r);
                }
                Inst::Extract { d, a, aw, lo, w } => {
                    let x = getv!(self, st, *a);
                    let r = self.cx.extract(x, *aw as u32, *lo as u32, *w as u32);
                    set!(*d, r);
                }
                Inst::Concat { d, parts } => {
                    let mut acc = Val::k(0);
                    let mut aw = 0u32;
                    for (o, w) in parts.iter() {
                        let x = getv!(self, st, *o);
                        acc = if aw == 0 { x } else { self.cx.concat(acc, aw, x, *w as u32) };
                        aw += *w as u32;
                    }
                    set!(*d, acc);
                }
                Inst::Mov { d, a } => {
                    let x = getv!(self, st, *a);
                    set!(*d, x);
                }
                Inst::Load { d, p, off, w } => {
                    let a = getv!(self, st, *p);
                    let r = if a.e == 0 {
                        let addr = (a.c as u64).wrapping_add(*off as u64);
                        match st.mem.load_c(addr, ((*w + 7) / 8) as usize)? {
                            Some(c) => Val::k(c & mask(*w as u32)),
                            None => self.load_val(st, addr, *w as u32)?,
                        }
                    } else {
                        self.load_sym(st, *p, *off as u64, *w as u32)?
                    };
                    set!(*d, r);
                }
                Inst::Store { p, off, v, w } => {
                    let a = getv!(self, st, *p);
                    let a = if a.e == 0 { a.c } else { self.cop(st, *p)? };
                    let x = getv!(self, st, *v);
                    let addr = (a as u64).wrapping_add(*off as u64);
                    if x.e == 0 {
                        st.mem.store_c(addr, ((*w + 7) / 8) as usize, x.c)?;
                    } else {
                        self.store_val(st, addr, x, *w as u32)?;
                    }
                }
                Inst::GepC { d, base, off } => {
                    let b = getv!(self, st, *base);
                    let r = if b.e == 0 {
                        Val::k((b.c as u64).wrapping_add(*off as u64) as u128)
                    } else {
                        self.cx.bin(BinOp::Add, 64, b, Val::k(*off as u64 as u128))
                    };
                    set!(*d, r);
                }
                Inst::Gep1 { d, base, off, idx, iw, scale } => {
                    let (b, i) = (getv!(self, st, *base), getv!(self, st, *idx));
                    let r = if b.e == 0 && i.e == 0 {
                        let k = sx(i.c, *iw as u32) as i64;
                        Val::k((b.c as u64).wrapping_add(k.wrapping_mul(*scale) as u64).wrapping_add(*off as u64) as u128)
                    } else {
                        let k = self.cx.sext(i, *iw as u32, 64);
                        let k = self.cx.bin(BinOp::Mul, 64, k, Val::k(*scale as u64 as u128));
                        let k = self.cx.bin(BinOp::Add, 64, k, Val::k(*off as u64 as u128));
                        self.cx.bin(BinOp::Add, 64, b, k)
                    };
                    set!(*d, r);
                }
                Inst::Gep { d, base, off, terms } => {
                    let mut r = getv!(self, st, *base);
                    r = self.cx.bin(BinOp::Add, 64, r, Val::k(*off as u64 as u128));
                    for (o, iw, s) in terms.iter() {
                        let i = getv!(self, st, *o);
                        let k = self.cx.sext(i, *iw as u32, 64);
                        let k = self.cx.bin(BinOp::Mul, 64, k, Val::k(*s as u64 as u128));
                        r = self.cx.bin(BinOp::Add, 64, r, k);
                    }
                    set!(*d, r);
                }
                Inst::Br { e } => {
                    self.jump(st, fun, *e);
                    continue;
                }
                Inst::CondBr { c, t, f } => {
                    let k = getv!(self, st, *c);
                    let b = if k.e == 0 { k.c & 1 == 1 } else { self.decide(st, k)? };
                    self.jump(st, fun, if b { *t } else { *f });
                    continue;
                }
                Inst::Switch { v, w, cases, default } => {
                    let mut k = getv!(self, st, *v);
                    if k.e != 0 && self.cx.single(k.e).is_none() {
                        k = self.simp(st, k.e);
                    }
                    let e = if k.e == 0 {
                        match cases.binary_search_by(|x| x.0.cmp(&k.c)) {
                            Ok(i) => cases[i].1,
                            Err(_) => *default,
                        }
                    } else if let Some(var) = self.cx.single(k.e) {
                        let groups = self.distinct(st, k.e, var);
                        let mut per: Vec<(u32, [u64; 4])> = vec![];
                        for (x, s) in groups {
                            let e = match cases.binary_search_by(|c| c.0.cmp(&(x as u128))) {
                                Ok(i) => cases[i].1,
                                Err(_) => *default,
                            };
                            match per.iter_mut().find(|p| p.0 == e) {
                                Some(p) => {
                                    for i in 0..4 {
                                        p.1[i] |= s[i];
                                    }
                                }
                                None => per.push((e, s)),
                            }
                        }
                        if per.len() == 1 {
                            per[0].0
                        } else {
                            self.fork_site(st);
                            let mut first: Option<(u32, State)> = None;
                            for (e, s) in per {
                                let mut sib = st.clone();
                                if self.restrict(&mut sib, var, s) {
                                    sib.forks += 1;
                                    if first.is_none() {
                                        first = Some((e, sib));
                                    } else {
                                        self.rep.forks += 1;
                                        self.work.push(sib);
                                    }
                                }
                            }
                            match first {
                                Some((e, s)) => {
                                    *st = s;
                                    e
                                }
                                None => return Err(Stop::End),
                            }
                        }
                    } else {
                        let mut r = *default;
                        for (x, e) in cases.iter() {
                            let c = self.cx.cmp(Pred::Eq, *w as u32, k, Val::k(*x));
                            if self.decide(st, c)? {
                                r = *e;
                                break;
                            }
                        }
                        r
                    };
                    self.jump(st, fun, e);
                    continue;
                }
                Inst::Call { f, args, d } => {
                    self.enter(st, *f, args, *d)?;
                    fun = &prog.funcs[st.cur.f as usize];
                    continue;
                }
                Inst::CallInd { f, args, d } => {
                    let a = self.cop(st, *f)? as u64;
                    if a < FN_BASE || a >= GLOBAL_BASE || (a - FN_BASE) % 16 != 0 {
                        return Err(Stop::Unsupported(format!("indirect call to {a:#x}")));
                    }
                    let fi = ((a - FN_BASE) / 16) as u32;
                    if fi as usize >= prog.funcs.len() {
                        return Err(Stop::Unsupported(format!("indirect call to {a:#x}")));
                    }
                    self.enter(st, fi, args, *d)?;
                    fun = &prog.funcs[st.cur.f as usize];
                    continue;
                }
                Inst::Ret { vals } => {
                    let parent = match st.stack.pop() {
                        None => return Ok(()),
                        Some(p) => p,
                    };
                    let mut parent = match Rc::try_unwrap(parent) {
                        Ok(p) => p,
                        Err(rc) => {
                            let mut regs = self.pool.pop().unwrap_or_default();
                            regs.clear();
                            regs.extend_from_slice(&rc.regs);
                            Frame { f: rc.f, pc: rc.pc, ret: rc.ret, sp: rc.sp, regs }
                        }
                    };
                    for (i, o) in vals.iter().enumerate() {
                        let v = getv!(self, st, *o);
                        parent.regs[st.cur.ret as usize + i] = v;
                    }
                    st.sp = st.cur.sp;
                    let old = std::mem::replace(&mut st.cur, parent);
                    if self.pool.len() < 256 {
                        self.pool.push(old.regs);
                    }
                    fun = &prog.funcs[st.cur.f as usize];
                    continue;
                }
                Inst::Alloca { d, size, align } => {
                    let al = (*align as u64).max(1);
                    let p = (st.sp + al - 1) & !(al - 1);
                    st.sp = p + size;
                    if st.sp > STACK_END - 4096 {
                        return Err(Stop::Violation("stack exhausted".into()));
                    }
                    set!(*d, Val::k(p as u128));
                }
                Inst::Memcpy { d, s, n } => {
                    let n = self.cop(st, *n)? as u64;
                    if n > 0 {
                        let (x, y) = (self.cop(st, *d)? as u64, self.cop(st, *s)? as u64);
                        st.mem.copy(x, y, n)?;
                    }
                }
                Inst::Memset { d, v, n } => {
                    let n = self.cop(st, *n)? as u64;
                    if n > 0 {
                        let x = self.cop(st, *d)? as u64;
                        let b = getv!(self, st, *v);
                        st.mem.fill(x, n, b.c as u8, b.e)?;
                    }
                }
                Inst::Unary { op, w, d, a } => {
                    let mut x = getv!(self, st, *a);
                    let w = *w as u32;
                    let r = if x.e == 0 {
                        Val::k(unary_c(*op, w, x.c))
                    } else if let (Some(v), true) = (self.cx.single(x.e), w <= 64) {
                        let t = self.cx.table(x.e).unwrap();
                        let mut o = [0u64; 256];
                        for i in 0..256 {
                            o[i] = unary_c(*op, w, t[i] as u128) as u64;
                        }
                        self.cx.mk_lut(v, o, w)
                    } else if *op == Un::Bswap {
                        let mut acc = self.cx.extract(x, w, 0, 8);
                        for i in 1..w / 8 {
                            let b = self.cx.extract(x, w, 8 * i, 8);
                            acc = self.cx.concat(acc, 8 * i, b, 8);
                        }
                        acc
                    } else if *op == Un::Abs {
                        let n = self.cx.bin(BinOp::Sub, w, Val::k(0), x);
                        let c = self.cx.cmp(Pred::Slt, w, x, Val::k(0));
                        self.cx.ite(w, c, n, x)
                    } else if *op == Un::Ctpop {
                        let mut acc = Val::k(0);
                        for i in 0..w {
                            let b = self.cx.extract(x, w, i, 1);
                            let b = self.cx.zext(b, 1, w);
                            acc = self.cx.bin(BinOp::Add, w, acc, b);
                        }
                        acc
                    } else if *op == Un::Ctlz || *op == Un::Cttz {
                        let mut acc = Val::k(w as u128);
                        for i in 0..w {
                            // the bit that decides is tested last
                            let k = if *op == Un::Ctlz { i } else { w - 1 - i };
                            let b = self.cx.extract(x, w, k, 1);
                            acc = self.cx.ite(w, b, Val::k(if *op == Un::Ctlz { w - 1 - k } else { k } as u128), acc);
                        }
                        acc
                    } else {
                        x = Val::k(self.cop(st, *a)?);
                        Val::k(unary_c(*op, w, x.c))
                    };
                    set!(*d, r);
                }
                Inst::Ovf { op, signed, w, d, a, b } => {
                    let (x, y) = (getv!(self, st, *a), getv!(self, st, *b));
                    let w = *w as u32;
                    let (r, o) = if x.e == 0 && y.e == 0 {
                        ovf_c(*op, *signed, w, x.c, y.c)
                    } else {
                        let r = self.cx.bin(*op, w, x, y);
                        let o = match (*op, *signed) {
                            (BinOp::Add, false) => self.cx.cmp(Pred::Ult, w, r, x),
                            (BinOp::Sub, false) => self.cx.cmp(Pred::Ult, w, x, y),
                            (BinOp::Add, true) | (BinOp::Sub, true) => {
                                let p = self.cx.bin(BinOp::Xor, w, x, if *op == BinOp::Add { r } else { y });
                                let q = if *op == BinOp::Add {
                                    self.cx.bin(BinOp::Xor, w, y, r)
                                } else {
                                    self.cx.bin(BinOp::Xor, w, x, r)
                                };
                                let m = self.cx.bin(BinOp::And, w, p, q);
                                self.cx.cmp(Pred::Slt, w, m, Val::k(0))
                            }
                            // by a positive constant: compare with the last factor that fits
                            (_, false) if y.e == 0 && y.c != 0 => self.cx.cmp(Pred::Ult, w, Val::k(mask(w) / y.c), x),
                            (_, true) if y.e == 0 && y.c != 0 && y.c >> (w - 1) == 0 => {
                                let h = 1u128 << (w - 1);
                                let hi = self.cx.cmp(Pred::Slt, w, Val::k((h - 1) / y.c), x);
                                let lo = self.cx.cmp(Pred::Slt, w, x, Val::k((h / y.c).wrapping_neg() & mask(w)));
                                self.cx.bin(BinOp::Or, 1, hi, lo)
                            }
                            (_, s) => {
                                if w > 64 {
                                    return Err(Stop::Unsupported("wide symbolic multiplication".into()));
                                }
                                let (p, q) = if s {
                                    (self.cx.sext(x, w, 2 * w), self.cx.sext(y, w, 2 * w))
                                } else {
                                    (self.cx.zext(x, w, 2 * w), self.cx.zext(y, w, 2 * w))
                                };
                                let m = self.cx.bin(BinOp::Mul, 2 * w, p, q);
                                let back = if s { self.cx.sext(r, w, 2 * w) } else { self.cx.zext(r, w, 2 * w) };
                                self.cx.cmp(Pred::Ne, 2 * w, m, back)
                            }
                        };
                        (r, o)
                    };
                    set!(*d, r);
                    set!(*d + 1, o);
                }
                Inst::SatOp { op, w, d, a, b } => {
                    let (x, y) = (getv!(self, st, *a), getv!(self, st, *b));
                    let w = *w as u32;
                    let r = match op {
                        Sat::UAdd => {
                            let r = self.cx.bin(BinOp::Add, w, x, y);
                            let o = self.cx.cmp(Pred::Ult, w, r, x);
                            self.cx.ite(w, o, Val::k(mask(w)), r)
                        }
                        Sat::USub => {
                            let r = self.cx.bin(BinOp::Sub, w, x, y);
                            let o = self.cx.cmp(Pred::Ult, w, x, y);
                            self.cx.ite(w, o, Val::k(0), r)
                        }
                        _ if x.e == 0 && y.e == 0 => {
                            let (i, j) = (sx(x.c, w), sx(y.c, w));
                            let r = if *op == Sat::SAdd { i + j } else { i - j };
                            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                            Val::k(r.clamp(lo, hi) as u128 & mask(w))
                        }
                        _ => {
                            let add = *op == Sat::SAdd;
                            let r = self.cx.bin(if add { BinOp::Add } else { BinOp::Sub }, w, x, y);
                            // overflow: the sign of the result contradicts those of the operands
                            let p = self.cx.bin(BinOp::Xor, w, x, if add { r } else { y });
                            let q = self.cx.bin(BinOp::Xor, w, if add { y } else { x }, r);
                            let m = self.cx.bin(BinOp::And, w, p, q);
                            let o = self.cx.cmp(Pred::Slt, w, m, Val::k(0));
                            let n = self.cx.cmp(Pred::Slt, w, x, Val::k(0));
                            let h = 1u128 << (w - 1);
                            let l = self.cx.ite(w, n, Val::k(h), Val::k(h - 1));
                            self.cx.ite(w, o, l, r)
                        }
                    };
                    set!(*d, r);
                }
                Inst::Cmp3 { signed, w, to, d, a, b } => {
                    let (x, y) = (getv!(self, st, *a), getv!(self, st, *b));
                    let (w, to) = (*w as u32, *to as u32);
                    let lt = self.cx.cmp(if *signed { Pred::Slt } else { Pred::Ult }, w, x, y);
                    let eq = self.cx.cmp(Pred::Eq, w, x, y);
                    let g = self.cx.ite(to, eq, Val::k(0), Val::k(1));
                    let r = self.cx.ite(to, lt, Val::k(mask(to)), g);
                    set!(*d, r);
                }
                Inst::Fsh { left, w, d, a, b, s } => {
                    let k = (self.cop(st, *s)? as u32) % *w as u32;
                    let (x, y) = (getv!(self, st, *a), getv!(self, st, *b));
                    let w = *w as u32;
                    let r = if k == 0 {
                        if *left {
                            x
                        } else {
                            y
                        }
                    } else {
                        // bits of x:y
                        let l = if *left { k } else { w - k };
                        let hi = self.cx.extract(x, w, 0, w - l);
                        let lo = self.cx.extract(y, w, w - l, l);
                        self.cx.concat(hi, w - l, lo, l)
                    };
                    set!(*d, r);
                }
                Inst::ExtractDyn { d, w: _, idx, items } => {
                    let i = self.cop(st, *idx)? as usize;
                    let v = getv!(self, st, items[i]);
                    set!(*d, v);
                }
                Inst::AtomicRmw { op, d, p, v, w } => {
                    let a = self.cop(st, *p)? as u64;
                    let w = *w as u32;
                    let old = self.load_val(st, a, w)?;
                    let x = getv!(self, st, *v);
                    let n = match op {
                        0 => x,
                        1 => self.cx.bin(BinOp::Add, w, old, x),
                        2 => self.cx.bin(BinOp::Sub, w, old, x),
                        3 => self.cx.bin(BinOp::And, w, old, x),
                        5 => self.cx.bin(BinOp::Or, w, old, x),
                        6 => self.cx.bin(BinOp::Xor, w, old, x),
                        _ => return Err(Stop::Unsupported(format!("atomicrmw {op}"))),
                    };
                    self.store_val(st, a, n, w)?;
                    set!(*d, old);
                }
                Inst::CmpXchg { d, p, c, n, w } => {
                    let a = self.cop(st, *p)? as u64;
                    let w = *w as u32;
                    let old = self.load_val(st, a, w)?;
                    let x = getv!(self, st, *c);
                    let eq = self.cx.cmp(Pred::Eq, w, old, x);
                    let b = self.decide(st, eq)?;
                    if b {
                        let y = getv!(self, st, *n);
                        self.store_val(st, a, y, w)?;
                    }
                    set!(*d, old);
                    set!(*d + 1, Val::k(b as u128));
                }
                Inst::Unreachable => {
                    return Err(Stop::Unsupported("unreachable code reached".into()));
                }
                Inst::Trap => {
                    let bt = self.backtrace(st);
                    return Err(Stop::Violation(format!("trap in {bt}")));
                }
                Inst::Unsupported(s) => {
                    return Err(Stop::Unsupported(format!("unsupported: {s}")));
                }
            }
            st.cur.pc += 1;
        }
    }
}

fn unary_c(op: Un, w: u32, x: u128) -> u128 {
    let m = mask(w);
    let x = x & m;
    (match op {
        Un::Cttz => {
            if x == 0 {
                w as u128
            } else {
                x.trailing_zeros() as u128
            }
        }
        Un::Ctlz => {
            if x == 0 {
                w as u128
            } else {
                (x.leading_zeros() - (128 - w)) as u128
            }
        }
        Un::Ctpop => x.count_ones() as u128,
        Un::Bswap => x.swap_bytes() >> (128 - w),
        Un::Bitrev => x.reverse_bits() >> (128 - w),
        Un::Abs => sx(x, w).wrapping_abs() as u128,
    }) & m
}

fn ovf_c(op: BinOp, signed: bool, w: u32, a: u128, b: u128) -> (Val, Val) {
    let m = mask(w);
    let (r, o) = if signed {
        let (x, y) = (sx(a, w), sx(b, w));
        let (r, o1) = match op {
            BinOp::Add => x.overflowing_add(y),
            BinOp::Sub => x.overflowing_sub(y),
            _ => x.overflowing_mul(y),
        };
        let t = r as u128 & m;
        (t, o1 || sx(t, w) != r)
    } else {
        let (r, o1) = match op {
            BinOp::Add => a.overflowing_add(b),
            BinOp::Sub => a.overflowing_sub(b),
            _ => a.overflowing_mul(b),
        };
        (r & m, o1 || r & m != r)
    };
    (Val::k(r), Val::k(o as u128))
}

/// readable tail of a mangled name
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let s = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if s + k <= b.len() && k > 0 && k < 64 && n[s..s + k].chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                && !n[s..s + k].starts_with(|c: char| c.is_ascii_digit())
            {
                parts.push(&n[s..s + k]);
                i = s + k;
                continue;
            }
        }
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate hash up to '_'
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
        }
        i += 1;
    }
    parts.truncate(10);
    parts.join("::")
}
