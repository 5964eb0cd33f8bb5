//! Symbolic interpreter: executes LLVM IR over concrete/symbolic values, forking on symbolic branches.
use crate::expr::*;
use crate::fx::FxMap;
use crate::ll::*;
use crate::par::Shared;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub shadow: Option<Vec<u32>>,
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], shadow: None }
    }
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    regs: Vec<Val>,
    block: u32,
    ip: u32,
    frame_obj: u32,
    extra: Vec<u32>,
    ret_dst: u32,
    normal: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<Option<Rc<Obj>>>,
    gmut: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    known: Rc<FxMap<E, u128>>,
    pub model: Rc<Model>,
    pub inputs: Vec<(u32, u32)>, // (name id, var idx)
    steps: u64,
    pub decisions: u32,
    pub trail: Vec<(u32, u128)>,
    /// Every assertion counts on this path from here on (sx_scope).
    wide: bool,
}

pub enum End {
    Done,
    Infeasible,
    Panic(String),
    Fault(String),
    Unsupported(String),
    Violation(String),
    StepLimit,
}
type R<T> = Result<T, End>;

pub struct Exec {
    pub m: &'static Module,
    funcs: Vec<Option<Rc<Func>>>,
    globals: Vec<Rc<Obj>>,
    pub pool: Pool,
    pub solver: Solver,
    pub stack: Vec<State>,
    pub shared: &'static Shared,
    pub tag: String,
    pub names: Vec<String>,
    name_ids: FxMap<String, u32>,
    phis: Vec<(u32, Val)>,
    tags: FxMap<(u64, u64), u32>,
    pub tag_counts: Vec<(String, u64)>,
    spare: Vec<Vec<Val>>,
    kinds: Vec<u8>, // 0 unknown 1 normal 2 extern 3 panic
    ng: u32,
    pub max_steps: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_sym: u64,
}

fn umin(a: u64, b: u64) -> u64 {
    a.min(b)
}

fn classify(name: &str) -> bool {
    name.contains("4core9panicking")
        || name.contains("rust_begin_unwind")
        || name.contains("rust_panic")
        || name.contains("3std9panicking")
        || name.contains("5alloc7raw_vec12handle_error")
        || name.contains("18handle_alloc_error")
        || name.contains("17capacity_overflow")
}

impl Exec {
    pub fn new(m: &'static Module, shared: &'static Shared, tag: &str) -> Exec {
        let globals = m.globals.iter().map(|g| Rc::new(Obj { data: g.data.clone(), shadow: None })).collect::<Vec<_>>();
        let kinds = m
            .fns
            .iter()
            .map(|f| {
                if classify(&f.name) {
                    3
                } else if f.body.is_none() {
                    2
                } else {
                    1
                }
            })
            .collect();
        Exec {
            m,
            funcs: (0..m.fns.len()).map(|_| None).collect(),
            ng: globals.len() as u32,
            globals,
            pool: Pool::new(),
            solver: Solver::new(),
            stack: vec![],
            shared,
            tag: tag.to_string(),
            names: vec![],
            name_ids: FxMap::default(),
            kinds,
            phis: vec![],
            tags: FxMap::default(),
            tag_counts: vec![],
            spare: vec![],
            max_steps: 60_000_000,
            instrs: 0,
            forks: 0,
            checks: 0,
            checks_sym: 0,
        }
    }
    fn func(&mut self, id: u32) -> R<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize] {
            return Ok(f.clone());
        }
        let f = self
            .m
            .decode(id)
            .map_err(|e| End::Unsupported(format!("decode {}: {}", self.m.fns[id as usize].name, e)))?;
        let f = Rc::new(f);
        self.funcs[id as usize] = Some(f.clone());
        Ok(f)
    }
    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let id = self.m.fn_id(entry).ok_or_else(|| format!("no entry function {}", entry))?;
        let mut st = State {
            frames: vec![],
            heap: vec![],
            gmut: FxMap::default(),
            pc: vec![],
            known: Rc::new(FxMap::default()),
            model: Rc::new(Model { id: 1, vals: vec![] }),
            inputs: vec![],
            steps: 0,
            decisions: 0,
            trail: vec![],
            wide: false,
        };
        self.push_frame(&mut st, id, vec![], u32::MAX, u32::MAX).map_err(|_| "cannot decode entry".to_string())?;
        Ok(st)
    }
    fn push_frame(&mut self, st: &mut State, id: u32, args: Vec<Val>, ret_dst: u32, normal: u32) -> R<()> {
        let f = self.func(id)?;
        if st.frames.len() > 3000 {
            return Err(End::Fault("call stack overflow (recursion)".into()));
        }
        unsafe { *self.shared.fnmap.add(id as usize) = 1 };
        let mut regs = self.spare.pop().unwrap_or_default();
        regs.extend(args.into_iter().take(f.nparams as usize));
        regs.resize(f.nregs as usize, Val::C(0));
        let fo = if f.frame_size > 0 { self.alloc(st, f.frame_size as usize) } else { u32::MAX };
        st.frames.push(Frame { func: f, regs, block: 0, ip: 0, frame_obj: fo, extra: vec![], ret_dst, normal });
        Ok(())
    }
    /// returns heap index
    fn alloc(&mut self, st: &mut State, n: usize) -> u32 {
        st.heap.push(Some(Rc::new(Obj::new(n))));
        (st.heap.len() - 1) as u32
    }
    fn addr_of(&self, h: u32) -> u64 {
        ((h + self.ng + 1) as u64) << 32
    }
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> R<(&'a Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let o: &Obj = if id == 0 {
            return Err(End::Fault(format!("null/dangling access at {:#x} ({} bytes)", addr, n)));
        } else if id <= self.ng {
            match st.gmut.get(&(id - 1)) {
                Some(o) => o,
                None => &self.globals[(id - 1) as usize],
            }
        } else {
            match st.heap.get((id - 1 - self.ng) as usize) {
                Some(Some(o)) => o,
                _ => return Err(End::Fault(format!("access to freed or invalid object at {:#x}", addr))),
            }
        };
        if off as u64 + n > o.data.len() as u64 {
            return Err(End::Fault(format!("out-of-bounds access off {} + {} > {}", off, n, o.data.len())));
        }
        Ok((o, off))
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let o: &mut Obj = if id == 0 {
            return Err(End::Fault(format!("null/dangling write at {:#x}", addr)));
        } else if id <= self.ng {
            let g = &self.globals[(id - 1) as usize];
            Rc::make_mut(st.gmut.entry(id - 1).or_insert_with(|| g.clone()))
        } else {
            match st.heap.get_mut((id - 1 - self.ng) as usize) {
                Some(Some(o)) => Rc::make_mut(o),
                _ => return Err(End::Fault(format!("write to freed or invalid object at {:#x}", addr))),
            }
        };
        if off as u64 + n > o.data.len() as u64 {
            return Err(End::Fault(format!("out-of-bounds write off {} + {} > {}", off, n, o.data.len())));
        }
        Ok((o, off))
    }
    fn norm(&self, st: &State, e: E) -> Val {
        if let Some(k) = self.pool.is_const(e) {
            return Val::C(k);
        }
        if let Some(&k) = st.known.get(&e) {
            return Val::C(k);
        }
        Val::S(e)
    }
    fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(k) => self.pool.cst(*k, w),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn load_scalar(&mut self, st: &State, addr: u64, bits: u32) -> R<Val> {
        let n = ((bits + 7) / 8) as usize;
        let parts: Vec<(E, u32, u32)>; // (expr or 0, idx / const, len)
        let mut consts: u128 = 0;
        {
            let (o, off) = self.obj(st, addr, n as u64)?;
            for j in (0..n).rev() {
                consts = (consts << 8) | o.data[off + j] as u128;
            }
            match &o.shadow {
                None => {
                    return Ok(Val::C(consts & mask(bits)));
                }
                Some(s) => {
                    let s = &s[off..off + n];
                    if s.iter().all(|x| *x == 0) {
                        return Ok(Val::C(consts & mask(bits)));
                    }
                    let mut p: Vec<(E, u32, u32)> = vec![];
                    for (j, x) in s.iter().enumerate() {
                        let (e, idx) = (x >> 4, x & 15);
                        match p.last_mut() {
                            Some(l) if l.0 == e && (e == 0 || l.1 + l.2 == idx) => l.2 += 1,
                            _ => p.push((e, if e == 0 { j as u32 } else { idx }, 1)),
                        }
                    }
                    parts = p;
                }
            }
        }
        let mut acc: Option<E> = None;
        for (e, idx, len) in parts {
            let x = if e == 0 { self.pool.cst(consts >> (8 * idx), len * 8) } else { self.pool.extract(e, idx * 8, len * 8) };
            acc = Some(match acc {
                None => x,
                Some(lo) => self.pool.concat(x, lo),
            });
        }
        let mut e = acc.unwrap();
        if bits < n as u32 * 8 {
            e = self.pool.extract(e, 0, bits);
        }
        Ok(self.norm(st, e))
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, bits: u32, v: &Val) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            Val::C(k) => {
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                let k = k & mask(bits);
                for j in 0..n {
                    o.data[off + j] = (k >> (8 * j)) as u8;
                }
                if let Some(s) = &mut o.shadow {
                    s[off..off + n].fill(0);
                }
            }
            Val::S(e) => {
                let e = self.pool.zext(*e, n as u32 * 8);
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                let len = o.data.len();
                let s = o.shadow.get_or_insert_with(|| vec![0; len]);
                for j in 0..n {
                    s[off + j] = (e << 4) | j as u32;
                }
            }
            Val::Agg(_) => return Err(End::Unsupported("store agg as scalar".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, t: &Ty, addr: u64) -> R<Val> {
        if t.is_scalar() {
            return self.load_scalar(st, addr, t.bits());
        }
        if let Ty::Vec(n, e) = t {
            if e.bits() % 8 != 0 {
                let v = self.load_scalar(st, addr, *n as u32 * e.bits())?;
                return self.bits_to_vec(st, &v, *n as u32, e.bits());
            }
        }
        let mut v = vec![];
        for i in 0..t.nelem() {
            let et = t.elem(i);
            v.push(self.load(st, &et, addr + t.field_off(i))?);
        }
        Ok(Val::Agg(Rc::new(v)))
    }
    fn store(&mut self, st: &mut State, t: &Ty, addr: u64, v: &Val) -> R<()> {
        if t.is_scalar() {
            return self.store_scalar(st, addr, t.bits(), v);
        }
        if let Val::Agg(a) = v {
            for i in 0..t.nelem() {
                let et = t.elem(i);
                self.store(st, &et, addr + t.field_off(i), &a[i])?;
            }
            Ok(())
        } else {
            Err(End::Unsupported("store".into()))
        }
    }
    fn bits_to_vec(&mut self, st: &State, v: &Val, n: u32, w: u32) -> R<Val> {
        let mut out = vec![];
        for i in 0..n {
            out.push(match v {
                Val::C(k) => Val::C((k >> (i * w)) & mask(w)),
                Val::S(e) => {
                    let x = self.pool.extract(*e, i * w, w);
                    self.norm(st, x)
                }
                _ => return Err(End::Unsupported("bits_to_vec".into())),
            });
        }
        Ok(Val::Agg(Rc::new(out)))
    }
    fn vec_to_bits(&mut self, st: &State, v: &[Val], w: u32) -> Val {
        if v.iter().all(|x| matches!(x, Val::C(_))) {
            let mut k = 0u128;
            for x in v.iter().rev() {
                if let Val::C(c) = x {
                    k = (k << w) | c;
                }
            }
            return Val::C(k);
        }
        let mut acc = self.ex(&v[0], w);
        for x in &v[1..] {
            let h = self.ex(x, w);
            acc = self.pool.concat(h, acc);
        }
        self.norm(st, acc)
    }

    // ---- path condition ----
    fn learn(&mut self, known: &mut FxMap<E, u128>, e: E, v: bool) {
        if self.pool.is_const(e).is_some() {
            return;
        }
        if known.insert(e, v as u128).is_some() {
            return;
        }
        let ne = self.pool.not(e);
        if self.pool.is_const(ne).is_none() {
            known.insert(ne, !v as u128);
        }
        let n = self.pool.nodes[e as usize];
        match (n.op, v) {
            (Op::And, true) if n.w == 1 => {
                self.learn(known, n.a, true);
                self.learn(known, n.b, true);
            }
            (Op::Or, false) if n.w == 1 => {
                self.learn(known, n.a, false);
                self.learn(known, n.b, false);
            }
            (Op::Xor, _) if n.w == 1 && self.pool.is_const(n.b) == Some(1) => {
                self.learn(known, n.a, !v);
            }
            (Op::Eq, true) => {
                if let Some(k) = self.pool.is_const(n.b) {
                    known.insert(n.a, k);
                }
            }
            _ => {}
        }
    }
    fn add_constraint(&mut self, st: &mut State, c: E) {
        if self.pool.is_const(c).is_some() {
            return;
        }
        if st.known.get(&c) == Some(&1) {
            return;
        }
        st.pc.push(c);
        let mut k = Rc::clone(&st.known);
        let km = Rc::make_mut(&mut k);
        self.learn(km, c, true);
        st.known = k;
    }
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        match self.solver.check(&mut self.pool, &st.pc, c, &st.model) {
            Res::Sat(m) => {
                debug_assert!(self.pool.eval(c, &m) & 1 == 1);
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(End::Unsupported("solver returned unknown".into())),
        }
    }
    /// decide a boolean; forks the other side when both are feasible
    fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        let e = match v {
            Val::C(k) => return Ok(k & 1 == 1),
            Val::S(e) => *e,
            _ => return Err(End::Unsupported("decide agg".into())),
        };
        if let Some(&k) = st.known.get(&e) {
            return Ok(k & 1 == 1);
        }
        let side = self.pool.eval(e, &st.model) & 1 == 1;
        let ne = self.pool.not(e);
        let (mine, other) = if side { (e, ne) } else { (ne, e) };
        if let Some(m) = self.feasible(st, other)? {
            let mut o = st.clone();
            o.model = m;
            o.decisions += 1;
            self.add_constraint(&mut o, other);
            self.stack.push(o);
            self.forks += 1;
            st.decisions += 1;
            self.add_constraint(st, mine);
        } else {
            // implied: remember so that it is not asked again
            let mut k = Rc::clone(&st.known);
            self.learn(Rc::make_mut(&mut k), mine, true);
            st.known = k;
        }
        Ok(side)
    }
    /// force a value to be concrete; forks over the alternatives
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::S(e) => *e,
            _ => return Err(End::Unsupported("conc agg".into())),
        };
        if let Some(&k) = st.known.get(&e) {
            return Ok(k);
        }
        let k = self.pool.eval(e, &st.model);
        let kc = self.pool.cst(k, w);
        let eq = self.pool.eq(e, kc);
        let ne = self.pool.not(eq);
        if let Some(m) = self.feasible(st, ne)? {
            let mut o = st.clone();
            o.model = m;
            o.decisions += 1;
            self.add_constraint(&mut o, ne);
            self.stack.push(o);
            self.forks += 1;
            st.decisions += 1;
            self.add_constraint(st, eq);
        }
        let mut kn = Rc::clone(&st.known);
        Rc::make_mut(&mut kn).insert(e, k);
        st.known = kn;
        Ok(k)
    }

    // ---- operators ----
    fn bin(&mut self, st: &State, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sext128(x, w) >> (y.min(w as u128 - 1))) as u128,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return Err(End::Fault("division by zero".into()));
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sext128(x, w).wrapping_div(sext128(y, w)) as u128,
                        _ => sext128(x, w).wrapping_rem(sext128(y, w)) as u128,
                    }
                }
                Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv => {
                    let f = |a: f64, b: f64| match op {
                        Bin::FAdd => a + b,
                        Bin::FSub => a - b,
                        Bin::FMul => a * b,
                        _ => a / b,
                    };
                    if w == 64 {
                        f(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
                    } else {
                        let g = |a: f32, b: f32| match op {
                            Bin::FAdd => a + b,
                            Bin::FSub => a - b,
                            Bin::FMul => a * b,
                            _ => a / b,
                        };
                        g(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u128
                    }
                }
            };
            return Ok(Val::C(r & m));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let p = &mut self.pool;
        let e = match op {
            Bin::Add => p.add(x, y),
            Bin::Sub => p.sub(x, y),
            Bin::Mul => p.mul(x, y),
            Bin::And => p.and(x, y),
            Bin::Or => p.or(x, y),
            Bin::Xor => p.xor(x, y),
            Bin::Shl => p.shl(x, y),
            Bin::LShr => p.lshr(x, y),
            Bin::AShr => p.ashr(x, y),
            Bin::UDiv => p.udiv(x, y),
            Bin::URem => p.urem(x, y),
            Bin::SDiv => p.sdiv(x, y),
            Bin::SRem => p.srem(x, y),
            _ => return Err(End::Unsupported("symbolic floating point".into())),
        };
        Ok(self.norm(st, e))
    }
    fn cmp(&mut self, st: &State, pr: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match pr {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::C(r as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let p = &mut self.pool;
        let e = match pr {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => p.ne(x, y),
            Pred::Ult => p.ult(x, y),
            Pred::Ule => p.ule(x, y),
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => p.ule(y, x),
            Pred::Slt => p.slt(x, y),
            Pred::Sle => p.sle(x, y),
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => p.sle(y, x),
        };
        self.norm(st, e)
    }
    fn ite(&mut self, st: &State, c: &Val, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(k) => Ok(if k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(c) => match (a, b) {
                (Val::Agg(x), Val::Agg(y)) => {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        let et = t.elem(i);
                        v.push(self.ite(st, &Val::S(*c), &et, &x[i], &y[i])?);
                    }
                    Ok(Val::Agg(Rc::new(v)))
                }
                _ => {
                    let w = t.bits();
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let e = self.pool.ite(*c, x, y);
                    Ok(self.norm(st, e))
                }
            },
            _ => Err(End::Unsupported("select".into())),
        }
    }
    fn cast(&mut self, st: &State, k: Cast, t: &Ty, t2: &Ty, v: &Val) -> R<Val> {
        if k == Cast::Bit {
            // scalar<->vector reinterpretation
            return match (t, t2) {
                (Ty::Vec(_, e), t2) if t2.is_scalar() => {
                    if let Val::Agg(a) = v {
                        let a = a.clone();
                        Ok(self.vec_to_bits(st, &a, e.bits()))
                    } else {
                        Err(End::Unsupported("bitcast".into()))
                    }
                }
                (t, Ty::Vec(n, e)) if t.is_scalar() => self.bits_to_vec(st, v, *n as u32, e.bits()),
                (Ty::Vec(_, e), Ty::Vec(n2, e2)) => {
                    if *n2 as u32 * e2.bits() > 128 {
                        return Err(End::Unsupported("wide bitcast".into()));
                    }
                    if let Val::Agg(a) = v {
                        let a = a.clone();
                        let b = self.vec_to_bits(st, &a, e.bits());
                        self.bits_to_vec(st, &b, *n2 as u32, e2.bits())
                    } else {
                        Err(End::Unsupported("bitcast".into()))
                    }
                }
                _ => Ok(v.clone()),
            };
        }
        if let Ty::Vec(n, e) = t {
            if let (Val::Agg(a), Ty::Vec(_, e2)) = (v, t2) {
                let mut out = vec![];
                for i in 0..*n as usize {
                    out.push(self.cast(st, k, e, e2, &a[i])?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
        }
        let (w, w2) = (t.bits(), t2.bits());
        match k {
            Cast::UiToFp | Cast::SiToFp | Cast::FpToUi | Cast::FpToSi | Cast::FpExt | Cast::FpTrunc => {
                let x = match v {
                    Val::C(x) => *x,
                    _ => return Err(End::Unsupported("symbolic floating point cast".into())),
                };
                let as_f = |x: u128| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let to_bits = |f: f64| if w2 == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                return Ok(Val::C(match k {
                    Cast::UiToFp => to_bits(x as f64),
                    Cast::SiToFp => to_bits(sext128(x, w) as f64),
                    Cast::FpToUi => as_f(x) as u128 & mask(w2),
                    Cast::FpToSi => as_f(x) as i128 as u128 & mask(w2),
                    _ => to_bits(as_f(x)),
                }));
            }
            _ => {}
        }
        match v {
            Val::C(x) => Ok(Val::C(match k {
                Cast::ZExt => *x,
                Cast::SExt => sext128(*x, w) as u128 & mask(w2),
                _ => x & mask(w2),
            })),
            Val::S(e) => {
                let r = match k {
                    Cast::ZExt => self.pool.zext(*e, w2),
                    Cast::SExt => self.pool.sext(*e, w2),
                    _ => self.pool.extract(*e, 0, w2),
                };
                Ok(self.norm(st, r))
            }
            _ => Err(End::Unsupported("cast".into())),
        }
    }

    #[inline]
    fn val(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn refresh(&self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            if let Some(&k) = st.known.get(&e) {
                return Val::C(k);
            }
        }
        v
    }
    fn get(&self, st: &State, o: &Opd) -> Val {
        let v = Self::val(st.frames.last().unwrap(), o);
        self.refresh(st, v)
    }
    fn addr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        let v = self.get(st, o);
        Ok(self.conc(st, &v, 64)? as u64)
    }

    fn goto(&mut self, st: &mut State, target: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.func.clone();
        let b = &f.blocks[target as usize];
        let mut k = 0;
        let mut vals: Vec<(u32, Val)> = vec![];
        for ins in &b.insts {
            if let Ins::Phi(_, v) = &ins.ins {
                let o = v
                    .iter()
                    .find(|x| x.0 == from)
                    .ok_or_else(|| End::Unsupported(format!("phi without edge in {}", f.name)))?;
                vals.push((ins.dst, Self::val(fr, &o.1)));
                k += 1;
            } else {
                break;
            }
        }
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.block = target;
        fr.ip = k;
        Ok(())
    }

    /// Run one state until its path ends.
    pub fn run(&mut self, st: &mut State) -> End {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0x3ff == 0 {
                st.steps += 0x400;
                self.instrs += 0x400;
                if st.steps > self.max_steps {
                    return End::StepLimit;
                }
                if !crate::par::poll(self) {
                    return End::Infeasible;
                }
            }
            tick += self.fast(st, 0x3ff - (tick & 0x3ff));
            if let Err(e) = self.step(st) {
                self.instrs += (tick & 0x3ff) as u64;
                return e;
            }
        }
    }

    /// Executes up to `max` instructions as long as every operand they need is concrete; returns how many.
    /// Same semantics as `step` on those operands. Anything else is left to `step`.
    fn fast(&mut self, st: &mut State, max: u32) -> u32 {
        let ng = self.ng;
        let dbgmap = self.shared.dbgmap;
        let fr: &mut Frame = st.frames.last_mut().unwrap();
        // the function is kept alive by the frame, which is not popped here
        let f: &Func = unsafe { &*Rc::as_ptr(&fr.func) };
        let heap = &mut st.heap;
        let mut n = 0;
        let mut insts = &f.blocks[fr.block as usize].insts;
        macro_rules! c {
            ($o:expr) => {
                match $o {
                    Opd::R(r) => match &fr.regs[*r as usize] {
                        Val::C(k) => *k,
                        _ => break,
                    },
                    Opd::K(Val::C(k)) => *k,
                    _ => break,
                }
            };
        }
        macro_rules! goto {
            ($t:expr) => {{
                let from = fr.block;
                let t = $t;
                let b = &f.blocks[t as usize];
                let mut k = 0;
                self.phis.clear();
                for ins in &b.insts {
                    if let Ins::Phi(_, v) = &ins.ins {
                        match v.iter().find(|x| x.0 == from) {
                            Some(o) => self.phis.push((ins.dst, Self::val(fr, &o.1))),
                            None => break,
                        }
                        k += 1;
                    } else {
                        break;
                    }
                }
                if let Some(Ins::Phi(..)) = b.insts.get(k).map(|i| &i.ins) {
                    break;
                }
                for (d, v) in self.phis.drain(..) {
                    fr.regs[d as usize] = v;
                }
                fr.block = t;
                fr.ip = k as u32;
                insts = &b.insts;
                n += 1;
                continue;
            }};
        }
        while n < max {
            let ins = &insts[fr.ip as usize];
            let res: Val = match &ins.ins {
                Ins::Bin(op, t, a, b) => {
                    let (x, y) = (c!(a), c!(b));
                    let w = t.bits();
                    if w == 0 {
                        break;
                    }
                    let r = match op {
                        Bin::Add => x.wrapping_add(y),
                        Bin::Sub => x.wrapping_sub(y),
                        Bin::And => x & y,
                        Bin::Or => x | y,
                        Bin::Xor => x ^ y,
                        Bin::Shl if y < w as u128 => x << y,
                        Bin::LShr if y < w as u128 => x >> y,
                        _ => break,
                    };
                    Val::C(r & mask(w))
                }
                Ins::Icmp(pr, t, a, b) => {
                    let (x, y) = (c!(a), c!(b));
                    let r = match pr {
                        Pred::Eq => x == y,
                        Pred::Ne => x != y,
                        Pred::Ult => x < y,
                        Pred::Ule => x <= y,
                        Pred::Ugt => x > y,
                        Pred::Uge => x >= y,
                        _ => {
                            let w = t.bits();
                            let (sx, sy) = (sext128(x, w), sext128(y, w));
                            match pr {
                                Pred::Slt => sx < sy,
                                Pred::Sle => sx <= sy,
                                Pred::Sgt => sx > sy,
                                _ => sx >= sy,
                            }
                        }
                    };
                    Val::C(r as u128)
                }
                Ins::Load(t, a) => {
                    let ad = c!(a) as u64;
                    let bits = match t {
                        Ty::Int(b) if *b <= 64 => *b,
                        Ty::Ptr => 64,
                        _ => break,
                    };
                    let nb = ((bits + 7) / 8) as usize;
                    let (id, off) = ((ad >> 32) as u32, (ad & 0xffff_ffff) as usize);
                    let o: &Obj = if id == 0 {
                        break;
                    } else if id <= ng {
                        match st.gmut.get(&(id - 1)) {
                            Some(o) => o,
                            None => &self.globals[(id - 1) as usize],
                        }
                    } else {
                        match heap.get((id - 1 - ng) as usize) {
                            Some(Some(o)) => o,
                            _ => break,
                        }
                    };
                    if off + nb > o.data.len() {
                        break;
                    }
                    if let Some(s) = &o.shadow {
                        if s[off..off + nb].iter().any(|x| *x != 0) {
                            break;
                        }
                    }
                    let mut b8 = [0u8; 8];
                    b8[..nb].copy_from_slice(&o.data[off..off + nb]);
                    Val::C(u64::from_le_bytes(b8) as u128 & mask(bits))
                }
                Ins::Store(t, v, a) => {
                    let ad = c!(a) as u64;
                    let x = c!(v);
                    let bits = match t {
                        Ty::Int(b) if *b <= 64 => *b,
                        Ty::Ptr => 64,
                        _ => break,
                    };
                    let nb = ((bits + 7) / 8) as usize;
                    let (id, off) = ((ad >> 32) as u32, (ad & 0xffff_ffff) as usize);
                    if id <= ng {
                        break;
                    }
                    let o = match heap.get_mut((id - 1 - ng) as usize) {
                        Some(Some(o)) => Rc::make_mut(o),
                        _ => break,
                    };
                    if off + nb > o.data.len() {
                        break;
                    }
                    o.data[off..off + nb].copy_from_slice(&((x & mask(bits)) as u64).to_le_bytes()[..nb]);
                    if let Some(s) = &mut o.shadow {
                        s[off..off + nb].fill(0);
                    }
                    if ins.dbg != u32::MAX {
                        unsafe { *dbgmap.add(ins.dbg as usize) = 1 };
                    }
                    fr.ip += 1;
                    n += 1;
                    continue;
                }
                Ins::Gep(base, off, idx) => {
                    let mut acc = (c!(base) as u64).wrapping_add(*off as u64);
                    let mut ok = true;
                    for (scale, w, o) in idx {
                        let k = match o {
                            Opd::R(r) => match &fr.regs[*r as usize] {
                                Val::C(k) => *k,
                                _ => {
                                    ok = false;
                                    break;
                                }
                            },
                            Opd::K(Val::C(k)) => *k,
                            _ => {
                                ok = false;
                                break;
                            }
                        };
                        acc = acc.wrapping_add((sext128(k, *w) as u64).wrapping_mul(*scale));
                    }
                    if !ok {
                        break;
                    }
                    Val::C(acc as u128)
                }
                Ins::Cast(k, t, t2, v) => {
                    let x = c!(v);
                    let (w, w2) = (t.bits(), t2.bits());
                    if w == 0 || w2 == 0 {
                        break;
                    }
                    match k {
                        Cast::ZExt => Val::C(x),
                        Cast::SExt => Val::C(sext128(x, w) as u128 & mask(w2)),
                        Cast::Trunc => Val::C(x & mask(w2)),
                        _ => break,
                    }
                }
                Ins::Select(cd, _, a, b, vec) => {
                    if *vec {
                        break;
                    }
                    let k = c!(cd);
                    Self::val(fr, if k & 1 == 1 { a } else { b })
                }
                Ins::ExtractValue(Opd::R(r), ix) if ix.len() == 1 => match &fr.regs[*r as usize] {
                    Val::Agg(a) => a[ix[0] as usize].clone(),
                    _ => break,
                },
                Ins::FrameSlot(o) => Val::C(((((fr.frame_obj + ng + 1) as u64) << 32) + o) as u128),
                Ins::Br(t) => {
                    if ins.dbg != u32::MAX {
                        unsafe { *dbgmap.add(ins.dbg as usize) = 1 };
                    }
                    goto!(*t)
                }
                Ins::CondBr(cd, a, b) => {
                    let k = c!(cd);
                    if ins.dbg != u32::MAX {
                        unsafe { *dbgmap.add(ins.dbg as usize) = 1 };
                    }
                    goto!(if k & 1 == 1 { *a } else { *b })
                }
                Ins::Switch(_, cd, cases, d) => {
                    let k = c!(cd);
                    if ins.dbg != u32::MAX {
                        unsafe { *dbgmap.add(ins.dbg as usize) = 1 };
                    }
                    goto!(cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d))
                }
                _ => break,
            };
            if ins.dbg != u32::MAX {
                unsafe { *dbgmap.add(ins.dbg as usize) = 1 };
            }
            if ins.dst != u32::MAX {
                fr.regs[ins.dst as usize] = res;
            }
            fr.ip += 1;
            n += 1;
        }
        n
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.func.clone();
        let ins = &f.blocks[fr.block as usize].insts[fr.ip as usize];
        if ins.dbg != u32::MAX {
            unsafe { *self.shared.dbgmap.add(ins.dbg as usize) = 1 };
        }
        let res: Val = match &ins.ins {
            Ins::Bin(op, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                match (&x, &y) {
                    (Val::Agg(p), Val::Agg(q)) => {
                        let w = t.elem(0).bits();
                        let mut v = vec![];
                        for i in 0..p.len() {
                            v.push(self.bin(st, *op, w, &p[i], &q[i])?);
                        }
                        Val::Agg(Rc::new(v))
                    }
                    _ => self.bin(st, *op, t.bits(), &x, &y)?,
                }
            }
            Ins::Icmp(pr, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                match (&x, &y) {
                    (Val::Agg(p), Val::Agg(q)) => {
                        let w = t.elem(0).bits();
                        let mut v = vec![];
                        for i in 0..p.len() {
                            v.push(self.cmp(st, *pr, w, &p[i], &q[i]));
                        }
                        Val::Agg(Rc::new(v))
                    }
                    _ => self.cmp(st, *pr, t.bits(), &x, &y),
                }
            }
            Ins::Fcmp(pr, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let w = t.bits();
                let (x, y) = (fl(self.conc(st, &x, w)?, w), fl(self.conc(st, &y, w)?, w));
                let un = x.is_nan() || y.is_nan();
                let r = match &**pr {
                    "true" => true,
                    "false" => false,
                    "ord" => !un,
                    "uno" => un,
                    k => {
                        let c = match &k[1..] {
                            "eq" => x == y,
                            "ne" => x != y && !un,
                            "lt" => x < y,
                            "le" => x <= y,
                            "gt" => x > y,
                            "ge" => x >= y,
                            _ => return Err(End::Unsupported(format!("fcmp {}", k))),
                        };
                        if k.starts_with('u') { un || c } else { c }
                    }
                };
                Val::C(r as u128)
            }
            Ins::Load(t, a) => {
                let ad = self.addr(st, a)?;
                self.load(st, t, ad)?
            }
            Ins::Store(t, v, a) => {
                let ad = self.addr(st, a)?;
                let x = self.get(st, v);
                self.store(st, t, ad, &x)?;
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            Ins::Gep(base, off, idx) => {
                let b = self.get(st, base);
                let mut acc = b;
                let mut coff = *off as u64;
                let mut sym: Vec<(u64, E)> = vec![];
                for (scale, w, o) in idx {
                    match self.get(st, o) {
                        Val::C(k) => coff = coff.wrapping_add((sext128(k, *w) as u64).wrapping_mul(*scale)),
                        Val::S(e) => sym.push((*scale, if *w < 64 { self.pool.sext(e, 64) } else { e })),
                        _ => return Err(End::Unsupported("gep index".into())),
                    }
                }
                if let Val::C(k) = acc {
                    acc = Val::C((k as u64).wrapping_add(coff) as u128);
                } else if coff != 0 {
                    acc = self.bin(st, Bin::Add, 64, &acc, &Val::C(coff as u128))?;
                }
                for (scale, e) in sym {
                    let k = self.pool.cst(scale as u128, 64);
                    let m = self.pool.mul(e, k);
                    let a = self.ex(&acc, 64);
                    let s = self.pool.add(a, m);
                    acc = self.norm(st, s);
                }
                acc
            }
            Ins::Cast(k, t, t2, v) => {
                let x = self.get(st, v);
                self.cast(st, *k, t, t2, &x)?
            }
            Ins::Select(c, t, a, b, vec) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                if *vec {
                    if let (Val::Agg(cv), Val::Agg(x), Val::Agg(y)) = (&cv, &x, &y) {
                        let et = t.elem(0);
                        let mut v = vec![];
                        for i in 0..cv.len() {
                            v.push(self.ite(st, &cv[i], &et, &x[i], &y[i])?);
                        }
                        Val::Agg(Rc::new(v))
                    } else {
                        return Err(End::Unsupported("vector select".into()));
                    }
                } else if *t == Ty::Ptr && matches!(cv, Val::S(_)) {
                    // keep addresses concrete
                    if self.decide(st, &cv)? {
                        x
                    } else {
                        y
                    }
                } else {
                    self.ite(st, &cv, t, &x, &y)?
                }
            }
            Ins::ExtractValue(a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match v {
                        Val::Agg(a) => a[*i as usize].clone(),
                        _ => return Err(End::Unsupported("extractvalue".into())),
                    };
                }
                self.refresh(st, v)
            }
            Ins::InsertValue(_, a, b, ix) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                fn ins(v: &Val, ix: &[u32], y: Val) -> Val {
                    if ix.is_empty() {
                        return y;
                    }
                    match v {
                        Val::Agg(a) => {
                            let mut n = a.as_ref().clone();
                            n[ix[0] as usize] = ins(&n[ix[0] as usize], &ix[1..], y);
                            Val::Agg(Rc::new(n))
                        }
                        _ => v.clone(),
                    }
                }
                ins(&x, ix, y)
            }
            Ins::ExtractElem(a, i) => {
                let k = self.get(st, i);
                let k = self.conc(st, &k, 64)?;
                match self.get(st, a) {
                    Val::Agg(v) => v[k as usize].clone(),
                    _ => return Err(End::Unsupported("extractelement".into())),
                }
            }
            Ins::InsertElem(_, a, b, i) => {
                let k = self.get(st, i);
                let k = self.conc(st, &k, 64)?;
                let y = self.get(st, b);
                match self.get(st, a) {
                    Val::Agg(v) => {
                        let mut n = v.as_ref().clone();
                        n[k as usize] = y;
                        Val::Agg(Rc::new(n))
                    }
                    _ => return Err(End::Unsupported("insertelement".into())),
                }
            }
            Ins::Shuffle(_, a, b, m) => match (self.get(st, a), self.get(st, b)) {
                (Val::Agg(x), Val::Agg(y)) => {
                    let n = x.len();
                    Val::Agg(Rc::new(
                        m.iter()
                            .map(|&i| if (i as usize) < n { x[i as usize].clone() } else { y[(i as usize - n) % y.len()].clone() })
                            .collect(),
                    ))
                }
                _ => return Err(End::Unsupported("shuffle".into())),
            },
            Ins::FrameSlot(o) => Val::C((self.addr_of(st.frames.last().unwrap().frame_obj) + o) as u128),
            Ins::Alloca(n, _) => {
                let h = self.alloc(st, *n as usize);
                st.frames.last_mut().unwrap().extra.push(h);
                Val::C(self.addr_of(h) as u128)
            }
            Ins::Freeze(o) => self.get(st, o),
            Ins::AtomicRmw(op, t, a, v) => {
                let ad = self.addr(st, a)?;
                let old = self.load(st, t, ad)?;
                let x = self.get(st, v);
                let w = t.bits();
                let new = match &**op {
                    "xchg" => x,
                    "add" => self.bin(st, Bin::Add, w, &old, &x)?,
                    "sub" => self.bin(st, Bin::Sub, w, &old, &x)?,
                    "and" => self.bin(st, Bin::And, w, &old, &x)?,
                    "or" => self.bin(st, Bin::Or, w, &old, &x)?,
                    "xor" => self.bin(st, Bin::Xor, w, &old, &x)?,
                    "umax" | "umin" => {
                        let c = self.cmp(st, Pred::Ult, w, &old, &x);
                        let (p, q) = if &**op == "umax" { (x, old.clone()) } else { (old.clone(), x) };
                        self.ite(st, &c, t, &p, &q)?
                    }
                    _ => return Err(End::Unsupported(format!("atomicrmw {}", op))),
                };
                self.store(st, t, ad, &new)?;
                old
            }
            Ins::CmpXchg(t, a, c, n) => {
                let ad = self.addr(st, a)?;
                let old = self.load(st, t, ad)?;
                let (cv, nv) = (self.get(st, c), self.get(st, n));
                let eq = self.cmp(st, Pred::Eq, t.bits(), &old, &cv);
                let ok = self.decide(st, &eq)?;
                if ok {
                    self.store(st, t, ad, &nv)?;
                }
                Val::Agg(Rc::new(vec![old, Val::C(ok as u128)]))
            }
            Ins::Br(t) => return self.goto(st, *t),
            Ins::CondBr(c, a, b) => {
                let v = self.get(st, c);
                let k = self.decide(st, &v)?;
                return self.goto(st, if k { *a } else { *b });
            }
            Ins::Switch(t, c, cases, d) => {
                let v = self.get(st, c);
                match v {
                    Val::C(k) => {
                        let tgt = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        return self.goto(st, tgt);
                    }
                    Val::S(e) => {
                        // decide per distinct target
                        let w = t.bits();
                        let k = self.pool.eval(e, &st.model);
                        let tgt = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        // condition for taking tgt
                        let mut cond = self.pool.cst(0, 1);
                        if tgt == *d {
                            let mut any = self.pool.cst(0, 1);
                            for (k, l) in cases {
                                if *l != *d {
                                    let kc = self.pool.cst(*k, w);
                                    let q = self.pool.eq(e, kc);
                                    any = self.pool.or(any, q);
                                }
                            }
                            cond = self.pool.not(any);
                        } else {
                            for (k, l) in cases {
                                if *l == tgt {
                                    let kc = self.pool.cst(*k, w);
                                    let q = self.pool.eq(e, kc);
                                    cond = self.pool.or(cond, q);
                                }
                            }
                        }
                        let cv = self.norm(st, cond);
                        let took = self.decide(st, &cv)?;
                        if !took {
                            return Err(End::Unsupported("switch decision inconsistent".into()));
                        }
                        return self.goto(st, tgt);
                    }
                    _ => return Err(End::Unsupported("switch".into())),
                }
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(st, o));
                let mut fr = st.frames.pop().unwrap();
                let mut regs = std::mem::take(&mut fr.regs);
                regs.clear();
                if self.spare.len() < 64 {
                    self.spare.push(regs);
                }
                if fr.frame_obj != u32::MAX {
                    st.heap[fr.frame_obj as usize] = None;
                }
                for h in &fr.extra {
                    st.heap[*h as usize] = None;
                }
                // give stack memory back when it is on top
                while matches!(st.heap.last(), Some(None)) {
                    st.heap.pop();
                }
                if st.frames.is_empty() {
                    return Err(End::Done);
                }
                let caller = st.frames.last_mut().unwrap();
                if let Some(v) = v {
                    if fr.ret_dst != u32::MAX {
                        caller.regs[fr.ret_dst as usize] = v;
                    }
                }
                if fr.normal != u32::MAX {
                    return self.goto(st, fr.normal);
                }
                caller.ip += 1;
                return Ok(());
            }
            Ins::Unreachable => return Err(End::Fault("reached unreachable".into())),
            Ins::Unsupported(s) => return Err(End::Unsupported(format!("{}: {}", f.name, s))),
            Ins::Phi(..) => return Err(End::Unsupported("stray phi".into())),
            Ins::Nop => Val::C(0),
            Ins::Call(callee, args, rt, normal) => {
                match callee {
                    Callee::Intr(n) => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                        let v = self.intrinsic(st, n, args, rt, &vals)?;
                        if let Some(v) = v {
                            if ins.dst != u32::MAX {
                                st.frames.last_mut().unwrap().regs[ins.dst as usize] = v;
                            }
                        }
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(());
                    }
                    _ => {}
                }
                let id = match callee {
                    Callee::Fn(id) => *id,
                    Callee::Reg(o) => {
                        let a = self.addr(st, o)?;
                        let k = a >> 32;
                        if k < FN_BASE || (k - FN_BASE) as usize >= self.m.fns.len() {
                            return Err(End::Fault(format!("call of non-function {:#x}", a)));
                        }
                        (k - FN_BASE) as u32
                    }
                    _ => unreachable!(),
                };
                let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                match self.kinds[id as usize] {
                    1 => {
                        let dst = ins.dst;
                        let normal = normal.unwrap_or(u32::MAX);
                        return self.push_frame(st, id, vals, dst, normal);
                    }
                    3 => {
                        let msg = self.panic_msg(st, id, &vals);
                        return Err(End::Panic(msg));
                    }
                    _ => {
                        let name = self.m.fns[id as usize].name.clone();
                        let v = self.external(st, &name, args, &vals)?;
                        let fr = st.frames.last_mut().unwrap();
                        if let Some(v) = v {
                            if ins.dst != u32::MAX {
                                fr.regs[ins.dst as usize] = v;
                            }
                        }
                        if let Some(n) = normal {
                            return self.goto(st, *n);
                        }
                        fr.ip += 1;
                        return Ok(());
                    }
                }
            }
        };
        let fr = st.frames.last_mut().unwrap();
        if ins.dst != u32::MAX {
            fr.regs[ins.dst as usize] = res;
        }
        fr.ip += 1;
        Ok(())
    }

    fn read_str(&mut self, st: &State, p: u64, n: u64) -> Option<String> {
        let (o, off) = self.obj(st, p, n).ok()?;
        Some(String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned())
    }
    fn panic_msg(&mut self, st: &State, id: u32, vals: &[Val]) -> String {
        let mut s = format!("panic via {}", short(&self.m.fns[id as usize].name));
        for v in vals.iter().rev() {
            if let Val::C(p) = v {
                let p = *p as u64;
                let f = self.load_scalar(st, p, 64);
                let n = self.load_scalar(st, p.wrapping_add(8), 64);
                let l = self.load_scalar(st, p.wrapping_add(16), 32);
                if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(l))) = (f, n, l) {
                    if n > 0 && n < 400 {
                        if let Some(t) = self.read_str(st, f as u64, n as u64) {
                            if t.contains(".rs") {
                                s = format!("{} at {}:{}", s, t, l);
                                break;
                            }
                        }
                    }
                }
            }
        }
        let names: Vec<String> = st.frames.iter().rev().take(6).map(|f| short(&f.func.name)).collect();
        format!("{} [{}]", s, names.join(" < "))
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sh) = {
            let (o, off) = self.obj(st, s, n)?;
            let e = off + n as usize;
            let sh = o.shadow.as_ref().and_then(|x| if x[off..e].iter().any(|v| *v != 0) { Some(x[off..e].to_vec()) } else { None });
            (o.data[off..e].to_vec(), sh)
        };
        let (o, off) = self.obj_mut(st, d, n)?;
        let e = off + n as usize;
        o.data[off..e].copy_from_slice(&data);
        match sh {
            None => {
                if let Some(x) = &mut o.shadow {
                    x[off..e].fill(0);
                }
            }
            Some(v) => {
                let len = o.data.len();
                let x = o.shadow.get_or_insert_with(|| vec![0; len]);
                x[off..e].copy_from_slice(&v);
            }
        }
        Ok(())
    }

    fn map1(&mut self, st: &State, t: &Ty, a: &Val, f: &mut dyn FnMut(&mut Self, &State, &Ty, &Val) -> R<Val>) -> R<Val> {
        if let (Ty::Vec(n, e), Val::Agg(v)) = (t, a) {
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(f(self, st, e, &v[i])?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        f(self, st, t, a)
    }
    fn map2(&mut self, st: &State, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &State, &Ty, &Val, &Val) -> R<Val>) -> R<Val> {
        if let (Ty::Vec(n, e), Val::Agg(v), Val::Agg(u)) = (t, a, b) {
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(f(self, st, e, &v[i], &u[i])?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        f(self, st, t, a, b)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, Opd)], rt: &Ty, v: &[Val]) -> R<Option<Val>> {
        let base = n.strip_prefix("llvm.").unwrap();
        let c64 = |s: &mut Self, st: &mut State, v: &Val| -> R<u64> { Ok(s.conc(st, v, 64)? as u64) };
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let len = c64(self, st, &v[2])?;
            let d = c64(self, st, &v[0])?;
            let s = c64(self, st, &v[1])?;
            self.copy(st, d, s, len)?;
            return Ok(None);
        }
        if base.starts_with("memset") {
            let len = c64(self, st, &v[2])?;
            let d = c64(self, st, &v[0])?;
            if len == 0 {
                return Ok(None);
            }
            match &v[1] {
                Val::C(b) => {
                    let b = *b as u8;
                    let (o, off) = self.obj_mut(st, d, len)?;
                    let e = off + len as usize;
                    o.data[off..e].fill(b);
                    if let Some(x) = &mut o.shadow {
                        x[off..e].fill(0);
                    }
                }
                Val::S(e) => {
                    let e = *e;
                    for i in 0..len {
                        self.store_scalar(st, d + i, 8, &Val::S(e))?;
                    }
                }
                _ => return Err(End::Unsupported("memset".into())),
            }
            return Ok(None);
        }
        let t0 = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        let key = base.split('.').collect::<Vec<_>>();
        let two = |s: &mut Self, st: &State, op: Bin| -> R<Val> { s.map2(st, &t0, &v[0], &v[1], &mut |s, st, t, a, b| s.bin(st, op, t.bits(), a, b)) };
        match key[0] {
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "fabs" | "sqrt" if t0.is_scalar() => {
                let w = t0.bits();
                let x = fl(self.conc(st, &v[0], w)?, w);
                let r = match key[0] {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    "round" => x.round(),
                    "fabs" => x.abs(),
                    "sqrt" => x.sqrt(),
                    _ => x.round_ties_even(),
                };
                return Ok(Some(Val::C(unfl(r, w))));
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" if t0.is_scalar() => {
                let w = t0.bits();
                let (x, y) = (fl(self.conc(st, &v[0], w)?, w), fl(self.conc(st, &v[1], w)?, w));
                return Ok(Some(Val::C(unfl(if key[0].starts_with("min") { x.min(y) } else { x.max(y) }, w))));
            }
            "fptoui" | "fptosi" if t0.is_scalar() => {
                let w = t0.bits();
                let x = fl(self.conc(st, &v[0], w)?, w);
                let n = rt.bits();
                return Ok(Some(Val::C(if key[0] == "fptoui" {
                    (x as u128).min(mask(n))
                } else {
                    let hi = (mask(n) >> 1) as i128;
                    (x as i128).clamp(-hi - 1, hi) as u128 & mask(n)
                })));
            }
            "umax" | "umin" | "smax" | "smin" => {
                let k = key[0];
                let r = self.map2(st, &t0, &v[0], &v[1], &mut |s, st, t, a, b| {
                    let pr = match k {
                        "umax" => Pred::Ugt,
                        "umin" => Pred::Ult,
                        "smax" => Pred::Sgt,
                        _ => Pred::Slt,
                    };
                    let c = s.cmp(st, pr, t.bits(), a, b);
                    s.ite(st, &c, t, a, b)
                })?;
                return Ok(Some(r));
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let w = if let Ty::Vec(_, e) = &t0 { e.bits() } else { t0.bits() };
                let op = match &key[0][1..] {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    _ => Bin::Mul,
                };
                let signed = key[0].starts_with('s');
                if key[1] == "with" {
                    let r = self.bin(st, op, w, &v[0], &v[1])?;
                    let o = self.overflow(st, op, signed, w, &v[0], &v[1], &r)?;
                    return Ok(Some(Val::Agg(Rc::new(vec![r, o]))));
                }
                if key[1] == "sat" && !signed {
                    let r = self.map2(st, &t0, &v[0], &v[1], &mut |s, st, t, a, b| {
                        let r = s.bin(st, op, w, a, b)?;
                        let o = s.overflow(st, op, false, w, a, b, &r)?;
                        let lim = if op == Bin::Sub { Val::C(0) } else { Val::C(mask(w)) };
                        s.ite(st, &o, t, &lim, &r)
                    })?;
                    return Ok(Some(r));
                }
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "abs" => {
                let k = key[0].to_string();
                let r = self.map1(st, &t0, &v[0], &mut |s, st, t, a| {
                    let w = t.bits();
                    match a {
                        Val::C(x) => Ok(Val::C(match &*k {
                            "ctpop" => x.count_ones() as u128,
                            "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                            "cttz" => x.trailing_zeros().min(w) as u128,
                            "bswap" => x.swap_bytes() >> (128 - w),
                            "bitreverse" => x.reverse_bits() >> (128 - w),
                            _ => sext128(*x, w).unsigned_abs() & mask(w),
                        })),
                        Val::S(e) => {
                            let e = *e;
                            let p = &mut s.pool;
                            let r = match &*k {
                                "ctpop" => {
                                    let mut acc = p.cst(0, w);
                                    for i in 0..w {
                                        let b = p.extract(e, i, 1);
                                        let b = p.zext(b, w);
                                        acc = p.add(acc, b);
                                    }
                                    acc
                                }
                                "cttz" => {
                                    let mut acc = p.cst(w as u128, w);
                                    for i in (0..w).rev() {
                                        let b = p.extract(e, i, 1);
                                        let k = p.cst(i as u128, w);
                                        acc = p.ite(b, k, acc);
                                    }
                                    acc
                                }
                                "ctlz" => {
                                    let mut acc = p.cst(w as u128, w);
                                    for i in 0..w {
                                        let b = p.extract(e, i, 1);
                                        let k = p.cst((w - 1 - i) as u128, w);
                                        acc = p.ite(b, k, acc);
                                    }
                                    acc
                                }
                                "bswap" => {
                                    let n = w / 8;
                                    let mut acc = p.extract(e, 0, 8);
                                    for i in 1..n {
                                        let b = p.extract(e, i * 8, 8);
                                        acc = p.concat(acc, b);
                                    }
                                    acc
                                }
                                _ => return Err(End::Unsupported(format!("symbolic {}", k))),
                            };
                            Ok(s.norm(st, r))
                        }
                        _ => Err(End::Unsupported("bits".into())),
                    }
                })?;
                return Ok(Some(r));
            }
            "fshl" | "fshr" => {
                let w = t0.bits();
                let sh = self.get(st, &args[2].1);
                let k = (self.conc(st, &sh, w)? % w as u128) as u32;
                let left = key[0] == "fshl";
                // concat(a,b) shifted
                if k == 0 {
                    return Ok(Some(if left { v[0].clone() } else { v[1].clone() }));
                }
                let (sl, sr) = if left { (k, w - k) } else { (w - k, k) };
                let a = self.bin(st, Bin::Shl, w, &v[0], &Val::C(sl as u128))?;
                let b = self.bin(st, Bin::LShr, w, &v[1], &Val::C(sr as u128))?;
                return Ok(Some(self.bin(st, Bin::Or, w, &a, &b)?));
            }
            "ucmp" | "scmp" => {
                let w = t0.bits();
                let (lt, gt) = if key[0] == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp(st, lt, w, &v[0], &v[1]);
                let g = self.cmp(st, gt, w, &v[0], &v[1]);
                let m1 = Val::C(mask(rt.bits()));
                let inner = self.ite(st, &g, rt, &Val::C(1), &Val::C(0))?;
                return Ok(Some(self.ite(st, &l, rt, &m1, &inner)?));
            }
            "expect" => return Ok(Some(v[0].clone())),
            "is" => return Ok(Some(Val::C(0))), // is.constant
            "threadlocal" | "ptrmask" if key[0] == "threadlocal" => return Ok(Some(v[0].clone())),
            "ptrmask" => return Ok(Some(self.bin(st, Bin::And, 64, &v[0], &v[1])?)),
            "trap" | "debugtrap" | "ubsantrap" => return Err(End::Panic("trap (abort)".into())),
            "x86" => {
                if base.contains("pause") {
                    return Ok(None);
                }
            }
            "prefetch" | "invariant" | "sideeffect" | "donothing" | "pseudoprobe" => return Ok(None),
            "objectsize" => return Ok(Some(Val::C(mask(rt.bits())))),
            "load" => {
                // load.relative(ptr, off)
                let p = c64(self, st, &v[0])?;
                let o = c64(self, st, &v[1])?;
                let x = self.load_scalar(st, p.wrapping_add(o), 32)?;
                let x = self.conc(st, &x, 32)?;
                return Ok(Some(Val::C(p.wrapping_add(sext128(x, 32) as u64) as u128)));
            }
            "vector" => {
                if key.len() > 2 && key[1] == "reduce" {
                    if let Val::Agg(a) = &v[0] {
                        let w = t0.elem(0).bits();
                        let mut acc = a[0].clone();
                        for x in &a[1..] {
                            acc = match key[2] {
                                "add" => self.bin(st, Bin::Add, w, &acc, x)?,
                                "or" => self.bin(st, Bin::Or, w, &acc, x)?,
                                "and" => self.bin(st, Bin::And, w, &acc, x)?,
                                "xor" => self.bin(st, Bin::Xor, w, &acc, x)?,
                                _ => return Err(End::Unsupported(n.to_string())),
                            };
                        }
                        return Ok(Some(acc));
                    }
                }
            }
            _ => {}
        }
        let _ = two;
        Err(End::Unsupported(format!("intrinsic {}", n)))
    }

    fn overflow(&mut self, st: &State, op: Bin, signed: bool, w: u32, a: &Val, b: &Val, r: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let o = if signed {
                let (x, y) = (sext128(*x, w), sext128(*y, w));
                let f = match op {
                    Bin::Add => x.checked_add(y),
                    Bin::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                match f {
                    None => true,
                    Some(z) => w < 128 && sext128(z as u128 & mask(w), w) != z,
                }
            } else {
                let f = match op {
                    Bin::Add => x.checked_add(*y),
                    Bin::Sub => x.checked_sub(*y),
                    _ => x.checked_mul(*y),
                };
                match f {
                    None => true,
                    Some(z) => z > mask(w),
                }
            };
            return Ok(Val::C(o as u128));
        }
        if !signed {
            match op {
                Bin::Add => return Ok(self.cmp(st, Pred::Ult, w, r, a)),
                Bin::Sub => return Ok(self.cmp(st, Pred::Ult, w, a, b)),
                _ => {
                    if 2 * w <= 128 {
                        let (x, y) = (self.ex(a, w), self.ex(b, w));
                        let x = self.pool.zext(x, 2 * w);
                        let y = self.pool.zext(y, 2 * w);
                        let m = self.pool.mul(x, y);
                        let h = self.pool.extract(m, w, w);
                        let z = self.pool.cst(0, w);
                        let e = self.pool.ne(h, z);
                        return Ok(self.norm(st, e));
                    }
                }
            }
        } else if w < 64 {
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            let x = self.pool.sext(x, 2 * w);
            let y = self.pool.sext(y, 2 * w);
            let m = match op {
                Bin::Add => self.pool.add(x, y),
                Bin::Sub => self.pool.sub(x, y),
                _ => self.pool.mul(x, y),
            };
            let rr = self.ex(r, w);
            let rs = self.pool.sext(rr, 2 * w);
            let e = self.pool.ne(m, rs);
            return Ok(self.norm(st, e));
        } else if w == 64 && op != Bin::Mul {
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            let x = self.pool.sext(x, 65);
            let y = self.pool.sext(y, 65);
            let m = if op == Bin::Add { self.pool.add(x, y) } else { self.pool.sub(x, y) };
            let rr = self.ex(r, w);
            let rs = self.pool.sext(rr, 65);
            let e = self.pool.ne(m, rs);
            return Ok(self.norm(st, e));
        }
        Err(End::Unsupported("symbolic overflow check".into()))
    }

    fn external(&mut self, st: &mut State, name: &str, args: &[(Ty, Opd)], v: &[Val]) -> R<Option<Val>> {
        let c = |s: &mut Self, st: &mut State, i: usize| -> R<u64> { Ok(s.conc(st, &v[i], args[i].0.bits())? as u64) };
        match name {
            "malloc" => {
                let n = c(self, st, 0)?;
                self.do_alloc(st, n)
            }
            "calloc" => {
                let n = c(self, st, 0)?;
                let k = c(self, st, 1)?;
                self.do_alloc(st, n.saturating_mul(k))
            }
            "aligned_alloc" => {
                let n = c(self, st, 1)?;
                self.do_alloc(st, n)
            }
            "posix_memalign" => {
                let n = c(self, st, 2)?;
                let out = c(self, st, 0)?;
                let a = self.do_alloc(st, n)?.unwrap();
                self.store_scalar(st, out, 64, &a)?;
                Ok(Some(Val::C(0)))
            }
            "realloc" => {
                let p = c(self, st, 0)?;
                let n = c(self, st, 1)?;
                let a = self.do_alloc(st, n)?.unwrap();
                if p != 0 {
                    let (o, _) = self.obj(st, p, 0)?;
                    let len = umin(o.data.len() as u64, n);
                    if let Val::C(d) = a {
                        self.copy(st, d as u64, p, len)?;
                    }
                    self.do_free(st, p)?;
                }
                Ok(Some(a))
            }
            "free" => {
                let p = c(self, st, 0)?;
                self.do_free(st, p)?;
                Ok(None)
            }
            "bcmp" | "memcmp" => {
                let n = c(self, st, 2)?;
                let a = c(self, st, 0)?;
                let b = c(self, st, 1)?;
                let order = name == "memcmp";
                let zero = self.pool.cst(0, 32);
                let mut acc = zero;
                for i in (0..n).rev() {
                    let x = self.load_scalar(st, a + i, 8)?;
                    let y = self.load_scalar(st, b + i, 8)?;
                    if let (Val::C(p), Val::C(q)) = (&x, &y) {
                        if p == q {
                            continue;
                        }
                        acc = self.pool.cst(if !order || p > q { 1 } else { mask(32) }, 32);
                        continue;
                    }
                    let (xe, ye) = (self.ex(&x, 8), self.ex(&y, 8));
                    let eq = self.pool.eq(xe, ye);
                    let diff = if order {
                        let lt = self.pool.ult(xe, ye);
                        let m1 = self.pool.cst(mask(32), 32);
                        let p1 = self.pool.cst(1, 32);
                        self.pool.ite(lt, m1, p1)
                    } else {
                        self.pool.cst(1, 32)
                    };
                    acc = self.pool.ite(eq, acc, diff);
                }
                Ok(Some(self.norm(st, acc)))
            }
            "memcpy" | "memmove" => {
                let n = c(self, st, 2)?;
                let d = c(self, st, 0)?;
                let s = c(self, st, 1)?;
                self.copy(st, d, s, n)?;
                Ok(Some(Val::C(d as u128)))
            }
            "strlen" => {
                let a = c(self, st, 0)?;
                let mut n = 0;
                loop {
                    let x = self.load_scalar(st, a + n, 8)?;
                    if self.conc(st, &x, 8)? == 0 {
                        return Ok(Some(Val::C(n as u128)));
                    }
                    n += 1;
                }
            }
            "getrandom" => {
                let n = c(self, st, 1)?;
                Ok(Some(Val::C(n as u128)))
            }
            "syscall" => {
                let k = c(self, st, 0)?;
                if k == 318 {
                    let n = c(self, st, 2)?;
                    return Ok(Some(Val::C(n as u128)));
                }
                Err(End::Unsupported(format!("syscall {}", k)))
            }
            "getenv" => Ok(Some(Val::C(0))),
            // time stands still
            "clock_gettime" => {
                let d = c(self, st, 1)?;
                self.store_scalar(st, d, 64, &Val::C(1))?;
                self.store_scalar(st, d + 8, 64, &Val::C(0))?;
                Ok(Some(Val::C(0)))
            }
            // every file is there and empty
            "open64" | "open" => Ok(Some(Val::C(100))),
            "read" | "lseek64" | "lseek" | "close" => Ok(Some(Val::C(0))),
            "fstat64" | "fstat" | "statx" => {
                let (d, n) = if name == "statx" { (c(self, st, 4)?, 256) } else { (c(self, st, 1)?, 144) };
                for k in 0..n / 8 {
                    self.store_scalar(st, d + 8 * k, 64, &Val::C(0))?;
                }
                Ok(Some(Val::C(0)))
            }
            "write" => {
                let n = c(self, st, 2)?;
                Ok(Some(Val::C(n as u128)))
            }
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => Ok(None),
            "abort" | "exit" | "_exit" => Err(End::Panic("abort".into())),
            "__cxa_thread_atexit_impl" => Ok(Some(Val::C(0))),
            _ if name.starts_with("sx_") => self.sx(st, name, v),
            _ => Err(End::Unsupported(format!("external function {}", name))),
        }
    }
    fn do_alloc(&mut self, st: &mut State, n: u64) -> R<Option<Val>> {
        if n > (1 << 26) {
            return Err(End::Fault(format!("allocation of {} bytes", n)));
        }
        let h = self.alloc(st, n as usize);
        Ok(Some(Val::C(self.addr_of(h) as u128)))
    }
    fn do_free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as u32;
        if id <= self.ng || p & 0xffff_ffff != 0 {
            return Err(End::Fault("free of non-heap pointer".into()));
        }
        let h = (id - 1 - self.ng) as usize;
        match st.heap.get_mut(h) {
            Some(x @ Some(_)) => *x = None,
            _ => return Err(End::Fault("double free".into())),
        }
        Ok(())
    }

    fn name_id(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.name_ids.get(s) {
            return i;
        }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.name_ids.insert(s.to_string(), i);
        i
    }

    fn sx(&mut self, st: &mut State, name: &str, v: &[Val]) -> R<Option<Val>> {
        let cc = |v: &Val| -> R<u64> {
            match v {
                Val::C(k) => Ok(*k as u64),
                _ => Err(End::Unsupported("sx arg must be concrete".into())),
            }
        };
        match name {
            // sx_sym(name, len, bits) -> u64
            "sx_sym" => {
                let (p, n, bits) = (cc(&v[0])?, cc(&v[1])?, cc(&v[2])? as u32);
                let s = self.read_str(st, p, n).ok_or_else(|| End::Unsupported("sx name".into()))?;
                let nid = self.name_id(&s);
                let occ = st.inputs.iter().filter(|x| x.0 == nid).count() as u32;
                let (e, idx) = self.pool.var(&s, occ, bits);
                st.inputs.push((nid, idx));
                let e = self.pool.zext(e, 64);
                Ok(Some(Val::S(e)))
            }
            // sx_assume(bool)
            "sx_assume" => {
                let e = match &v[0] {
                    Val::C(k) => {
                        return if k & 1 == 1 { Ok(None) } else { Err(End::Infeasible) };
                    }
                    Val::S(e) => *e,
                    _ => return Err(End::Unsupported("assume".into())),
                };
                let e = if self.pool.w(e) > 1 { self.pool.extract(e, 0, 1) } else { e };
                if self.pool.eval(e, &st.model) & 1 == 1 {
                    self.add_constraint(st, e);
                } else {
                    match self.feasible(st, e)? {
                        Some(m) => {
                            st.model = m;
                            self.add_constraint(st, e);
                        }
                        None => return Err(End::Infeasible),
                    }
                }
                Ok(None)
            }
            // sx_check(tag, len, bool)
            "sx_check" => {
                let key = (cc(&v[0])?, cc(&v[1])?);
                let global = (key.0 >> 32) as u32 <= self.ng;
                let slot = match self.tags.get(&key) {
                    Some(x) if global => *x,
                    _ => {
                        let tag = self.read_str(st, key.0, key.1).unwrap_or_default();
                        let mine = self.tag == "*" || tag.split(':').next().unwrap().split('|').any(|t| t == self.tag);
                        self.tag_counts.push((tag, 0));
                        let x = (self.tag_counts.len() as u32 - 1) * 2 + mine as u32;
                        self.tags.insert(key, x);
                        x
                    }
                };
                if slot & 1 == 0 && !st.wide {
                    return Ok(None);
                }
                self.checks += 1;
                let tc = &mut self.tag_counts[slot as usize / 2];
                tc.1 += 1;
                if let Val::C(k) = &v[2] {
                    if k & 1 == 1 {
                        return Ok(None);
                    }
                }
                let tag = tc.0.clone();
                let e = match &v[2] {
                    Val::C(k) => {
                        return if k & 1 == 1 { Ok(None) } else { Err(End::Violation(tag)) };
                    }
                    Val::S(e) => *e,
                    _ => return Err(End::Unsupported("check".into())),
                };
                let e = if self.pool.w(e) > 1 { self.pool.extract(e, 0, 1) } else { e };
                self.checks_sym += 1;
                let ne = self.pool.not(e);
                if self.pool.eval(e, &st.model) & 1 == 0 {
                    return Err(End::Violation(tag));
                }
                if let Some(m) = self.feasible(st, ne)? {
                    st.model = m;
                    return Err(End::Violation(tag));
                }
                Ok(None)
            }
            "sx_scope" => {
                let tag = self.read_str(st, cc(&v[0])?, cc(&v[1])?).unwrap_or_default();
                st.wide |= tag.split('|').any(|t| t == self.tag);
                Ok(None)
            }
            // sx_want(tag) -> is this the property being decided (or do all assertions count)?
            "sx_want" => {
                let tag = self.read_str(st, cc(&v[0])?, cc(&v[1])?).unwrap_or_default();
                let w = st.wide || self.tag == "*" || tag.split('|').any(|t| t == self.tag);
                Ok(Some(Val::C(w as u128)))
            }
            "sx_cover" => {
                let tag = self.read_str(st, cc(&v[0])?, cc(&v[1])?).unwrap_or_default();
                self.shared.cover(&tag, 1);
                Ok(None)
            }
            // sx_conc(v) -> concrete v (forks)
            "sx_conc" => {
                let k = self.conc(st, &v[0], 64)?;
                Ok(Some(Val::C(k)))
            }
            // branch-free boolean connectives for oracles
            "sx_and" => {
                let x = self.bin(st, Bin::And, 1, &v[0], &v[1])?;
                Ok(Some(x))
            }
            "sx_or" => {
                let x = self.bin(st, Bin::Or, 1, &v[0], &v[1])?;
                Ok(Some(x))
            }
            "sx_ite" => {
                let x = self.ite(st, &v[0], &Ty::Int(64), &v[1], &v[2])?;
                Ok(Some(x))
            }
            "sx_symbolic" => Ok(Some(Val::C(1))),
            "sx_note" => Ok(None),
            "sx_stop" => Err(End::Done),
            _ => Err(End::Unsupported(name.to_string())),
        }
    }
}

/// crude readable form of a v0-mangled name
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l > 1 && s + l <= b.len() && b[s..s + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && b[s].is_ascii_alphabetic() | (b[s] == b'_') {
                out.push(n[s..s + l].to_string());
                i = s + l;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.truncate(6);
        out.join("::")
    }
}

fn fl(x: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x as u64)
    }
}
fn unfl(f: f64, w: u32) -> u128 {
    if w == 32 {
        (f as f32).to_bits() as u128
    } else {
        f.to_bits() as u128
    }
}
