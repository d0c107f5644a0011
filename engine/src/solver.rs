//! z3 (QF_BV) behind the expression language.
#![allow(non_snake_case)]
use crate::expr::{BinOp, Ctx, Fx, Node, Pred, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

#[derive(Debug, Clone)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Solver {
    c: P,
    simple: P,
    bv: HashMap<E, P, Fx>,
    bo: HashMap<E, P, Fx>,
    dom: HashMap<(u32, [u64; 4]), P, Fx>,
    cache: HashMap<u64, u8, Fx>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub dump: Option<(std::path::PathBuf, u32)>,
    pub dump_min: f64,
}

fn cstr(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cstr("model").as_ptr(), cstr("true").as_ptr());
            let c = Z3_mk_context(cfg);
            let simple = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, simple);
            let mut s = Solver {
                c,
                simple,
                bv: HashMap::default(),
                bo: HashMap::default(),
                dom: HashMap::default(),
                cache: HashMap::default(),
                stats: Stats::default(),
                timeout_ms,
                dump: None,
                dump_min: std::env::var("POSYM_DUMP_MIN").ok().and_then(|v| v.parse().ok()).unwrap_or(2.0),
            };
            s.set_timeout(simple);
            s
        }
    }

    fn set_timeout(&mut self, s: P) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cstr("rlimit").as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe { Z3_mk_numeral(self.c, cstr(&v.to_string()).as_ptr(), Z3_mk_bv_sort(self.c, w)) }
    }

    fn var(&self, v: u32, w: u32) -> P {
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (v * 256 + w) as c_int), Z3_mk_bv_sort(self.c, w)) }
    }

    /// A lookup table as a balanced choice between stretches on which it is affine.
    fn pieces(&self, x: P, t: &[u64], w: u32) -> P {
        let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
        let mut ps: Vec<(usize, u64, u64)> = vec![]; // start, factor, offset
        let mut i = 0;
        while i < 256 {
            let mut run = |d: u64| -> usize {
                let mut j = i;
                while j + 1 < 256 && t[j + 1].wrapping_sub(t[j]) & m == d {
                    j += 1;
                }
                j + 1 - i
            };
            let n = run(0);
            let (n, d) = if n == 1 && i < 255 && w >= 8 {
                let d = t[i + 1].wrapping_sub(t[i]) & m;
                let k = run(d);
                if k >= 4 { (k, d) } else { (1, 0) }
            } else {
                (n, 0)
            };
            ps.push((i, d, t[i].wrapping_sub(d.wrapping_mul(i as u64)) & m));
            i += n;
        }
        let z = unsafe { if w > 8 { Z3_mk_concat(self.c, self.num(0, w - 8), x) } else { x } };
        self.piece(x, z, &ps, w)
    }
    fn piece(&self, x: P, z: P, ps: &[(usize, u64, u64)], w: u32) -> P {
        unsafe {
            if ps.len() == 1 {
                let (_, d, o) = ps[0];
                let k = self.num(o as u128, w);
                return match d {
                    0 => k,
                    1 if o == 0 => z,
                    1 => Z3_mk_bvadd(self.c, z, k),
                    _ => Z3_mk_bvadd(self.c, Z3_mk_bvmul(self.c, z, self.num(d as u128, w)), k),
                };
            }
            let h = ps.len() / 2;
            let (a, b) = (self.piece(x, z, &ps[..h], w), self.piece(x, z, &ps[h..], w));
            let k = self.num(ps[h].0 as u128, 8);
            Z3_mk_ite(self.c, Z3_mk_bvult(self.c, x, k), a, b)
        }
    }

    fn set_formula(&self, x: P, s: &[u64; 4]) -> P {
        // disjunction of ranges
        let mut ors = vec![];
        let mut i = 0u32;
        let has = |i: u32| s[(i >> 6) as usize] >> (i & 63) & 1 == 1;
        while i < 256 {
            if has(i) {
                let a = i;
                while i < 256 && has(i) {
                    i += 1;
                }
                unsafe {
                    let (lo, hi) = (self.num(a as u128, 8), self.num(i as u128 - 1, 8));
                    ors.push(if a == i - 1 {
                        Z3_mk_eq(self.c, x, lo)
                    } else {
                        let p = [Z3_mk_bvule(self.c, lo, x), Z3_mk_bvule(self.c, x, hi)];
                        Z3_mk_and(self.c, 2, p.as_ptr())
                    });
                }
            } else {
                i += 1;
            }
        }
        unsafe { Z3_mk_or(self.c, ors.len() as u32, ors.as_ptr()) }
    }

    fn domf(&mut self, v: u32, d: &[u64; 4]) -> P {
        if let Some(p) = self.dom.get(&(v, *d)) {
            return *p;
        }
        let x = self.var(v, 8);
        let p = self.set_formula(x, d);
        self.dom.insert((v, *d), p);
        p
    }

    pub fn boolean(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(p) = self.bo.get(&e) {
            return *p;
        }
        let inf = *cx.info(e);
        let c = self.c;
        let r = unsafe {
            match inf.node {
                Node::Const(k) => {
                    if k & 1 == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Cmp(p, a, b) => {
                    let (x, y) = (self.bvx(cx, a), self.bvx(cx, b));
                    match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        _ => unreachable!(),
                    }
                }
                Node::Bin(BinOp::And, a, b) => {
                    let p = [self.boolean(cx, a), self.boolean(cx, b)];
                    Z3_mk_and(c, 2, p.as_ptr())
                }
                Node::Bin(BinOp::Or, a, b) => {
                    let p = [self.boolean(cx, a), self.boolean(cx, b)];
                    Z3_mk_or(c, 2, p.as_ptr())
                }
                Node::Bin(BinOp::Xor, a, b) => {
                    let (x, y) = (self.boolean(cx, a), self.boolean(cx, b));
                    Z3_mk_xor(c, x, y)
                }
                Node::Ite(i, t, f) => {
                    let (i, t, f) = (self.boolean(cx, i), self.boolean(cx, t), self.boolean(cx, f));
                    Z3_mk_ite(c, i, t, f)
                }
                Node::Lut(v, t) => {
                    let mut s = [0u64; 4];
                    for i in 0..256 {
                        if cx.tables[t as usize][i] & 1 == 1 {
                            s[i >> 6] |= 1 << (i & 63);
                        }
                    }
                    let x = self.var(v, 8);
                    self.set_formula(x, &s)
                }
                _ => {
                    let x = self.bvx(cx, e);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bo.insert(e, r);
        r
    }

    fn bvx(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let inf = *cx.info(e);
        let c = self.c;
        let w = inf.w as u32;
        let r = unsafe {
            match inf.node {
                Node::Const(k) => self.num(k, w),
                Node::Var(v) => self.var(v, w),
                Node::Lut(v, t) => {
                    let tb = cx.tables[t as usize].clone();
                    let x = self.var(v, 8);
                    self.pieces(x, &tb[..], w)
                }
                Node::Cmp(..) => {
                    let b = self.boolean(cx, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Node::Ite(i, t, f) => {
                    let i = self.boolean(cx, i);
                    let (t, f) = (self.bvx(cx, t), self.bvx(cx, f));
                    Z3_mk_ite(c, i, t, f)
                }
                Node::Sext(a) => {
                    let aw = cx.width(a);
                    let x = self.bvx(cx, a);
                    Z3_mk_sign_ext(c, w - aw, x)
                }
                Node::Extract(a, lo) => {
                    let x = self.bvx(cx, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                }
                Node::Concat(a, b) => {
                    let (x, y) = (self.bvx(cx, a), self.bvx(cx, b));
                    Z3_mk_concat(c, x, y)
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.bvx(cx, a), self.bvx(cx, b));
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, x, y),
                        BinOp::Sub => Z3_mk_bvsub(c, x, y),
                        BinOp::Mul => Z3_mk_bvmul(c, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOp::URem => Z3_mk_bvurem(c, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOp::Shl => Z3_mk_bvshl(c, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                        BinOp::AShr => Z3_mk_bvashr(c, x, y),
                        BinOp::And => Z3_mk_bvand(c, x, y),
                        BinOp::Or => Z3_mk_bvor(c, x, y),
                        BinOp::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    /// Satisfiability of the conjunction; with a model over the variables involved.
    pub fn check(&mut self, cx: &Ctx, cons: &[E], doms: &[(u32, [u64; 4])], model: bool) -> Res {
        use std::hash::{BuildHasher, Hasher};
        let mut h = Fx.build_hasher();
        let mut k: Vec<E> = cons.to_vec();
        k.sort();
        k.dedup();
        for x in &k {
            h.write_u32(*x);
        }
        h.write_u32(!0);
        for (v, d) in doms {
            h.write_u32(*v);
            for x in d {
                h.write_u64(*x);
            }
        }
        let key = h.finish();
        if !model {
            if let Some(r) = self.cache.get(&key) {
                self.stats.cached += 1;
                match r {
                    0 => return Res::Unsat,
                    _ => return Res::Sat(vec![]),
                }
            }
        }
        let mut vars = 0u128;
        for &x in &k {
            vars |= cx.info(x).vars;
        }
        for (v, _) in doms {
            vars |= 1 << v;
        }
        let wide = vars & !cx.byte_vars != 0;
        let t0 = Instant::now();
        let r = unsafe {
            let c = self.c;
            let s = if wide {
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cstr("QF_BV").as_ptr()));
                Z3_solver_inc_ref(c, s);
                self.set_timeout(s);
                s
            } else {
                Z3_solver_push(c, self.simple);
                self.simple
            };
            for &x in &k {
                let b = self.boolean(cx, x);
                Z3_solver_assert(c, s, b);
            }
            for (v, d) in doms {
                if *d != [!0u64; 4] {
                    let b = self.domf(*v, d);
                    Z3_solver_assert(c, s, b);
                }
            }
            // before the check, which rewrites what is asserted
            let body = match &self.dump {
                Some((_, n)) if *n > 0 => Some(CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned()),
                _ => None,
            };
            let r = Z3_solver_check(c, s);
            let out = match r {
                -1 => Res::Unsat,
                1 => {
                    let mut m = vec![];
                    if model {
                        let z = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, z);
                        let mut vs = vars;
                        while vs != 0 {
                            let v = vs.trailing_zeros();
                            vs &= vs - 1;
                            let w = cx.var_w[v as usize] as u32;
                            let mut o = std::ptr::null_mut();
                            Z3_model_eval(c, z, self.var(v, w), true, &mut o);
                            let t = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_string_lossy();
                            m.push((v, t.parse().unwrap_or(0)));
                        }
                        Z3_model_dec_ref(c, z);
                    }
                    Res::Sat(m)
                }
                _ => Res::Unknown,
            };
            if let (Some((dir, n)), Some(body)) = (self.dump.as_mut(), body) {
                if t0.elapsed().as_secs_f64() > self.dump_min {
                    *n -= 1;
                    let _ = std::fs::write(
                        dir.join(format!("q{}-{}.smt2", std::process::id(), n)),
                        format!("; expected {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", match r { 1 => "sat", -1 => "unsat", _ => "unknown" }, body),
                    );
                }
            }
            if wide {
                Z3_solver_dec_ref(c, s);
            } else {
                Z3_solver_pop(c, s, 1);
            }
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.secs += dt;
        self.stats.max_secs = self.stats.max_secs.max(dt);
        match r {
            Res::Sat(_) => {
                self.stats.sat += 1;
                self.cache.insert(key, 1);
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(key, 0);
            }
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
}
