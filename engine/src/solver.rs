//! z3 back end: constraint slices are translated to SMT bit-vector formulas and decided by z3.
use crate::expr::*;
use crate::fx::FxMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const std::os::raw::c_char;
    fn Z3_mk_context_rc(c: P) -> Ctx;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_simple_solver(c: Ctx) -> P;
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_solver_push(c: Ctx, s: P);
    fn Z3_solver_pop(c: Ctx, s: P, n: c_uint);
    fn Z3_solver_reset(c: Ctx, s: P);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_check(c: Ctx, s: P) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_get_num_consts(c: Ctx, m: P) -> c_uint;
    fn Z3_model_get_const_decl(c: Ctx, m: P, i: c_uint) -> P;
    fn Z3_model_get_const_interp(c: Ctx, m: P, d: P) -> Ast;
    fn Z3_get_decl_name(c: Ctx, d: P) -> P;
    fn Z3_get_symbol_kind(c: Ctx, s: P) -> c_int;
    fn Z3_get_symbol_int(c: Ctx, s: P) -> c_int;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: Ctx) -> P;
    fn Z3_mk_const(c: Ctx, s: P, ty: P) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: P) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}
#[derive(Clone)]
enum Cached {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: Ctx,
    s: P,
    bv: FxMap<E, Ast>,
    bl: FxMap<E, Ast>,
    nums: FxMap<(u128, u32), Ast>,
    cache: FxMap<Vec<E>, Cached>,
    next_model: u64,
    pub queries: u64,
    pub z3_calls: u64,
    pub cache_hits: u64,
    pub time_ns: u64,
    pub max_ns: u64,
    since_reset: u32,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn z3_error(_: Ctx, code: c_int) {
    eprintln!("z3 reports error {code}");
    std::process::exit(115);
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(ctx, p, k, 60_000);
            Z3_solver_set_params(ctx, s, p);
            Z3_set_error_handler(ctx, z3_error);
            Solver {
                ctx,
                s,
                bv: FxMap::default(),
                bl: FxMap::default(),
                nums: FxMap::default(),
                cache: FxMap::default(),
                next_model: 1,
                queries: 0,
                z3_calls: 0,
                cache_hits: 0,
                time_ns: 0,
                max_ns: 0,
                since_reset: 0,
            }
        }
    }
    pub fn fresh_model_id(&mut self) -> u64 {
        self.next_model += 1;
        self.next_model
    }
    /// Every term handed out is referenced for good: z3 frees an unreferenced result at the next call.
    unsafe fn num(&mut self, v: u128, w: u32) -> Ast {
        if let Some(&a) = self.nums.get(&(v, w)) {
            return a;
        }
        let c = self.ctx;
        let r = if w <= 64 {
            let sort = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, sort);
            Z3_mk_unsigned_int64(c, v as u64, sort)
        } else {
            let lo = self.num(v & u64::MAX as u128, 64);
            let hi = self.num(v >> 64, w - 64);
            Z3_mk_concat(c, hi, lo)
        };
        Z3_inc_ref(c, r);
        self.nums.insert((v, w), r);
        r
    }
    fn as_bool(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bl.get(&e) {
            return a;
        }
        let n = p.nodes[e as usize];
        let c = self.ctx;
        debug_assert!(n.w == 1);
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k & 1 == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bool_sort(c)),
                Op::And => {
                    let v = [self.as_bool(p, n.a), self.as_bool(p, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.as_bool(p, n.a), self.as_bool(p, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let a = self.as_bool(p, n.a);
                    if p.is_const(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.as_bool(p, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.as_bool(p, n.a), self.as_bool(p, n.b), self.as_bool(p, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq => {
                    let (a, b) = (self.as_bv(p, n.a), self.as_bv(p, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.as_bv(p, n.a), self.as_bv(p, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.as_bv(p, n.a), self.as_bv(p, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.as_bv(p, n.a), self.as_bv(p, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.as_bv(p, n.a), self.as_bv(p, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                _ => {
                    let one = self.num(1, 1);
                    let a = self.raw_bv(p, e);
                    Z3_inc_ref(c, a);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bl.insert(e, r);
        r
    }
    fn as_bv(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bv.get(&e) {
            return a;
        }
        let n = p.nodes[e as usize];
        let c = self.ctx;
        let r = if n.w == 1 && n.op != Op::Extract {
            let b = self.as_bool(p, e);
            unsafe {
                let one = self.num(1, 1);
                let zero = self.num(0, 1);
                Z3_mk_ite(c, b, one, zero)
            }
        } else {
            self.raw_bv(p, e)
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv.insert(e, r);
        r
    }
    fn raw_bv(&mut self, p: &Pool, e: E) -> Ast {
        let n = p.nodes[e as usize];
        let c = self.ctx;
        let w = n.w as u32;
        unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, w)),
                Op::Ite => {
                    let (a, b, d) = (self.as_bool(p, n.a), self.as_bv(p, n.b), self.as_bv(p, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::ZExt => {
                    if p.w(n.a) == 1 {
                        let b = self.as_bool(p, n.a);
                        let one = self.num(1, w);
                        let zero = self.num(0, w);
                        Z3_mk_ite(c, b, one, zero)
                    } else {
                        let a = self.as_bv(p, n.a);
                        Z3_mk_zero_ext(c, w - p.w(n.a), a)
                    }
                }
                Op::SExt => {
                    let a = self.as_bv(p, n.a);
                    Z3_mk_sign_ext(c, w - p.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.as_bv(p, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                _ => {
                    let a = self.as_bv(p, n.a);
                    let b = self.as_bv(p, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }

    /// Is `pc /\ cond` satisfiable?  `base` is a model of `pc`.
    pub fn check(&mut self, p: &mut Pool, pc: &[E], cond: E, base: &Model) -> Res {
        self.queries += 1;
        if let Some(k) = p.is_const(cond) {
            if k & 1 == 0 {
                return Res::Unsat;
            }
        }
        // slice: constraints transitively sharing variables with cond
        let mut vs: Vec<u64> = p.vars(cond).as_ref().clone();
        let mut slice: Vec<E> = vec![cond];
        let mut rest: Vec<(E, Rc<Vec<u64>>)> = Vec::with_capacity(pc.len());
        for &e in pc {
            let v = p.vars(e);
            rest.push((e, v));
        }
        loop {
            let mut changed = false;
            rest.retain(|(e, v)| {
                let hit = v.iter().zip(vs.iter()).any(|(a, b)| a & b != 0);
                if hit {
                    slice.push(*e);
                    if vs.len() < v.len() {
                        vs.resize(v.len(), 0);
                    }
                    for (i, x) in v.iter().enumerate() {
                        vs[i] |= x;
                    }
                    changed = true;
                }
                !hit
            });
            if !changed {
                break;
            }
        }
        slice[1..].sort_unstable();
        slice.dedup();
        let c = match self.cache.get(&slice) {
            Some(c) => {
                self.cache_hits += 1;
                c.clone()
            }
            None => {
                let c = self.solve(p, &slice);
                self.cache.insert(slice, c.clone());
                c
            }
        };
        match c {
            Cached::Unsat => Res::Unsat,
            Cached::Unknown => Res::Unknown,
            Cached::Sat(m) => {
                let mut vals = base.vals.clone();
                // every variable of the slice takes its value from the new model (default 0)
                for (i, word) in vs.iter().enumerate() {
                    let mut w = *word;
                    while w != 0 {
                        let b = w.trailing_zeros() as usize;
                        w &= w - 1;
                        let idx = i * 64 + b;
                        if vals.len() <= idx {
                            vals.resize(idx + 1, 0);
                        }
                        vals[idx] = 0;
                    }
                }
                for &(i, v) in m.iter() {
                    if vals.len() <= i as usize {
                        vals.resize(i as usize + 1, 0);
                    }
                    vals[i as usize] = v;
                }
                let id = self.fresh_model_id();
                Res::Sat(Rc::new(Model { id, vals }))
            }
        }
    }
    fn solve(&mut self, p: &Pool, slice: &[E]) -> Cached {
        let t0 = std::time::Instant::now();
        self.z3_calls += 1;
        self.since_reset += 1;
        let asts: Vec<Ast> = slice.iter().map(|&e| self.as_bool(p, e)).collect();
        let r = unsafe {
            let c = self.ctx;
            if self.since_reset > 500 {
                Z3_solver_reset(c, self.s);
                self.since_reset = 0;
            }
            Z3_solver_push(c, self.s);
            for a in &asts {
                Z3_solver_assert(c, self.s, *a);
            }
            let r = Z3_solver_check(c, self.s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, m);
                let n = Z3_model_get_num_consts(c, m);
                let mut v = vec![];
                for i in 0..n {
                    let d = Z3_model_get_const_decl(c, m, i);
                    let s = Z3_get_decl_name(c, d);
                    if Z3_get_symbol_kind(c, s) != 0 {
                        continue;
                    }
                    let idx = Z3_get_symbol_int(c, s) as u32;
                    let a = Z3_model_get_const_interp(c, m, d);
                    if a.is_null() {
                        continue;
                    }
                    let w = p.var_names[idx as usize].1;
                    let val = if w == 1 {
                        (Z3_get_bool_value(c, a) == 1) as u128
                    } else {
                        let mut x = 0u64;
                        if w <= 64 && Z3_get_numeral_uint64(c, a, &mut x) {
                            x as u128
                        } else {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, a)).to_string_lossy();
                            s.parse::<u128>().unwrap_or(0)
                        }
                    };
                    v.push((idx, val));
                }
                Z3_model_dec_ref(c, m);
                Cached::Sat(Rc::new(v))
            } else if r == -1 {
                Cached::Unsat
            } else {
                Cached::Unknown
            };
            Z3_solver_pop(c, self.s, 1);
            out
        };
        let ns = t0.elapsed().as_nanos() as u64;
        self.time_ns += ns;
        if ns > 200_000_000 && std::env::var_os("SX_SLOW").is_some() {
            let t: String = asts.iter().map(|a| unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, *a)).to_string_lossy().to_string() }).collect::<Vec<_>>().join("\n");
            eprintln!("slow query {:.2}s: {}", ns as f64 / 1e9, t.chars().take(1500).collect::<String>());
        }
        self.max_ns = self.max_ns.max(ns);
        r
    }
}
