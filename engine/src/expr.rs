//! Hash-consed bit-vector expression DAG with a rewriting constructor layer.
use crate::fx::FxMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub nvars: u32,
    pub var_names: Vec<(String, u8)>,
    var_map: FxMap<(String, u32), u32>,
    // evaluation memo
    memo: Vec<(u32, u128)>,
    epoch: u32,
    last_model: u64,
    vmemo: Vec<Option<std::rc::Rc<Vec<u64>>>>,
}

pub struct Model {
    pub id: u64,
    pub vals: Vec<u128>,
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            map: FxMap::default(),
            nvars: 0,
            var_names: vec![],
            var_map: FxMap::default(),
            memo: vec![],
            epoch: 1,
            last_model: 0,
            vmemo: vec![],
        };
        // expression 0 is reserved (means "concrete" in shadow memory)
        p.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: u128::MAX });
        p
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        if e >= (1 << 28) {
            panic!("expression pool exhausted");
        }
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        self.intern(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    /// Variable identified by (name, occurrence on the path).
    pub fn var(&mut self, name: &str, occ: u32, w: u32) -> (E, u32) {
        let key = (format!("{}:{}", name, w), occ);
        let idx = match self.var_map.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.nvars;
                self.nvars += 1;
                self.var_names.push((format!("{}#{}", name, occ), w as u8));
                self.var_map.insert(key, i);
                i
            }
        };
        (self.intern(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: idx as u128 }), idx)
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w: w as u8, a, b, c, k })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(mask(w), w);
        self.xor(a, m)
    }
    pub fn add(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x.wrapping_add(y), w);
            }
            if y == 0 {
                return a;
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Add {
                if let Some(z) = self.is_const(n.b) {
                    let k = self.cst(y.wrapping_add(z), w);
                    return self.add(n.a, k);
                }
            }
            if n.op == Op::Ite {
                if let (Some(t), Some(f)) = (self.is_const(n.b), self.is_const(n.c)) {
                    let t = self.cst(t.wrapping_add(y), w);
                    let f = self.cst(f.wrapping_add(y), w);
                    return self.ite(n.a, t, f);
                }
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // pull constants outwards
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Add && self.is_const(na.b).is_some() {
            let t = self.add(na.a, b);
            return self.add(t, na.b);
        }
        if nb.op == Op::Add && self.is_const(nb.b).is_some() {
            let t = self.add(a, nb.a);
            return self.add(t, nb.b);
        }
        // a + (-1 * a) == 0
        if self.is_neg_of(a, b) || self.is_neg_of(b, a) {
            return self.cst(0, w);
        }
        // (x + -y) + y = x
        for (p, q) in [(a, b), (b, a)] {
            let n = self.nodes[p as usize];
            if n.op == Op::Add {
                if self.is_neg_of(n.a, q) || self.is_neg_of(q, n.a) {
                    return n.b;
                }
                if self.is_neg_of(n.b, q) || self.is_neg_of(q, n.b) {
                    return n.a;
                }
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    fn is_neg_of(&self, a: E, b: E) -> bool {
        let n = self.nodes[a as usize];
        n.op == Op::Mul && n.a == b && self.is_const(n.b) == Some(mask(n.w as u32))
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(mask(w), w);
        self.mul(a, m)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Mul {
                if let Some(z) = self.is_const(n.b) {
                    let k = self.cst(y.wrapping_mul(z), w);
                    return self.mul(n.a, k);
                }
            }
            if n.op == Op::Add && y == mask(w) {
                // -(x+y) = -x + -y
                let l = self.mul(n.a, b);
                let r = self.mul(n.b, b);
                return self.add(l, r);
            }
            if n.op == Op::Ite {
                if let (Some(t), Some(f)) = (self.is_const(n.b), self.is_const(n.c)) {
                    let t = self.cst(t.wrapping_mul(y), w);
                    let f = self.cst(f.wrapping_mul(y), w);
                    return self.ite(n.a, t, f);
                }
            }
            if y.is_power_of_two() {
                let k = self.cst(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(if y == 0 { mask(w) } else { x / y }, w);
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.cst(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(if y == 0 { x } else { x % y }, w);
            }
            if y.is_power_of_two() {
                let k = self.cst(y - 1, w);
                return self.and(a, k);
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 {
                let r = sext128(x, w).wrapping_div(sext128(y, w));
                return self.cst(r as u128, w);
            }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 {
                let r = sext128(x, w).wrapping_rem(sext128(y, w));
                return self.cst(r as u128, w);
            }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn and(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x & y, w);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            let n = self.nodes[a as usize];
            if n.op == Op::And {
                if let Some(z) = self.is_const(n.b) {
                    let k = self.cst(y & z, w);
                    return self.and(n.a, k);
                }
            }
            // low mask => zext(extract)
            if (y & (y + 1)) == 0 {
                let k = 128 - y.leading_zeros();
                let x = self.extract(a, 0, k);
                return self.zext(x, w);
            }
            if n.op == Op::Ite {
                if let (Some(t), Some(f)) = (self.is_const(n.b), self.is_const(n.c)) {
                    let t = self.cst(t & y, w);
                    let f = self.cst(f & y, w);
                    return self.ite(n.a, t, f);
                }
            }
        } else {
            if w == 1 && (self.is_not_of(a, b) || self.is_not_of(b, a)) {
                return self.cst(0, 1);
            }
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let t = self.and(na.a, nb.a);
                return self.zext(t, w);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn is_not_of(&self, a: E, b: E) -> bool {
        let n = self.nodes[a as usize];
        n.op == Op::Xor && n.a == b && self.is_const(n.b) == Some(mask(n.w as u32))
    }
    pub fn or(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Concat {
                let lw = self.w(n.b);
                if let (Some(l), true) = (self.is_const(n.b), y <= mask(lw)) {
                    let k = self.cst(l | y, lw);
                    return self.concat(n.a, k);
                }
            }
        } else {
            if w == 1 && (self.is_not_of(a, b) || self.is_not_of(b, a)) {
                return self.cst(1, 1);
            }
            // (x << k) | zext(y) with |y| <= k  =>  concat
            for (p, q) in [(a, b), (b, a)] {
                let np = self.nodes[p as usize];
                let nq = self.nodes[q as usize];
                if np.op == Op::Concat && self.is_const(np.b) == Some(0) && nq.op == Op::ZExt {
                    let kb = self.w(np.b);
                    if self.w(nq.a) <= kb {
                        let lo = self.zext(nq.a, kb);
                        return self.concat(np.a, lo);
                    }
                }
            }
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let t = self.or(na.a, nb.a);
                return self.zext(t, w);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x ^ y, w);
            }
            if y == 0 {
                return a;
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Xor {
                if let Some(z) = self.is_const(n.b) {
                    let k = self.cst(y ^ z, w);
                    return self.xor(n.a, k);
                }
            }
            if w == 1 {
                match n.op {
                    // not(a < b) = b <= a
                    Op::Ult => return self.ule(n.b, n.a),
                    Op::Ule => return self.ult(n.b, n.a),
                    Op::Slt => return self.sle(n.b, n.a),
                    Op::Sle => return self.slt(n.b, n.a),
                    _ => {}
                }
            }
            if n.op == Op::Ite {
                if let (Some(t), Some(f)) = (self.is_const(n.b), self.is_const(n.c)) {
                    let t = self.cst(t ^ y, w);
                    let f = self.cst(f ^ y, w);
                    return self.ite(n.a, t, f);
                }
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k >= w as u128 {
                return self.cst(0, w);
            }
            if k == 0 {
                return a;
            }
            let k = k as u32;
            let hi = self.extract(a, 0, w - k);
            let lo = self.cst(0, k);
            return self.concat(hi, lo);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k >= w as u128 {
                return self.cst(0, w);
            }
            if k == 0 {
                return a;
            }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    /// extract `len` bits starting at bit `lo`
    pub fn extract(&mut self, a: E, lo: u32, len: u32) -> E {
        let w = self.w(a);
        debug_assert!(lo + len <= w && len > 0);
        if lo == 0 && len == w {
            return a;
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.cst(n.k >> lo, len),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, len),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, len);
                }
                if lo + len <= iw {
                    return self.extract(n.a, lo, len);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, len);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + len <= iw {
                    return self.extract(n.a, lo, len);
                }
                if lo == 0 {
                    return self.sext(n.a, len);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + len <= lw {
                    return self.extract(n.b, lo, len);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, len);
                }
                let h = self.extract(n.a, 0, lo + len - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let t = self.extract(n.b, lo, len);
                    let f = self.extract(n.c, lo, len);
                    return self.ite(n.a, t, f);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, len);
                let y = self.extract(n.b, lo, len);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add if lo == 0 => {
                let x = self.extract(n.a, 0, len);
                let y = self.extract(n.b, 0, len);
                return self.add(x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, len, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.cst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let t = self.zext(n.b, w);
                    let f = self.zext(n.c, w);
                    return self.ite(n.a, t, f);
                }
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.cst(sext128(n.k, aw) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if aw == 1 {
            let t = self.cst(mask(w), w);
            let f = self.cst(0, w);
            return self.ite(a, t, f);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let Some(h) = self.is_const(hi) {
            if let Some(l) = self.is_const(lo) {
                return self.cst((h << lw) | l, w);
            }
            if h == 0 {
                return self.zext(lo, w);
            }
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // extract adjacent to a whole value: concat(extract(x, lw..), extract(x,0..lw)) handled above
        if nl.op == Op::Concat {
            // re-associate: concat(hi, concat(m, l)) -> concat(concat(hi,m), l) when hi,m merge
            let (nm, _) = (self.nodes[nl.a as usize], 0);
            if nh.op == Op::Extract
                && nm.op == Op::Extract
                && nh.a == nm.a
                && nh.k == nm.k + self.w(nl.a) as u128
            {
                let t = self.concat(hi, nl.a);
                return self.concat(t, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, w);
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k & 1 == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        let nc = self.nodes[c as usize];
        if nc.op == Op::Xor && self.is_const(nc.b) == Some(1) {
            return self.ite(nc.a, f, t);
        }
        if w == 1 {
            match (self.is_const(t), self.is_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, f),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, f);
                }
                (_, Some(0)) => return self.and(c, t),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, t);
                }
                _ => {}
            }
        }
        // ite(c, ite(c,a,_), f) etc.
        let (nt, nf) = (self.nodes[t as usize], self.nodes[f as usize]);
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        if nc.op == Op::Eq {
            // ite(x == k, k, x) = x
            if nc.a == f && nc.b == t {
                return f;
            }
        }
        self.mk(Op::Ite, w, c, t, f, 0)
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst((x == y) as u128, 1);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            let n = self.nodes[a as usize];
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y & mask(iw) != y {
                        return self.cst(0, 1);
                    }
                    let k = self.cst(y, iw);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if (sext128(y & mask(iw), iw) as u128) & mask(w) != y {
                        return self.cst(0, 1);
                    }
                    let k = self.cst(y, iw);
                    return self.eq(n.a, k);
                }
                Op::Add => {
                    if let Some(z) = self.is_const(n.b) {
                        let k = self.cst(y.wrapping_sub(z), w);
                        return self.eq(n.a, k);
                    }
                    // x + (-1*y) == 0  =>  x == y
                    if y == 0 {
                        for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                            let nq = self.nodes[q as usize];
                            if nq.op == Op::Mul && self.is_const(nq.b) == Some(mask(w)) {
                                return self.eq(p, nq.a);
                            }
                        }
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.is_const(n.b) {
                        let k = self.cst(y ^ z, w);
                        return self.eq(n.a, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Or if y == 0 => {
                    let z = self.cst(0, w);
                    let l = self.eq(n.a, z);
                    let r = self.eq(n.b, z);
                    return self.and(l, r);
                }
                Op::Ite => {
                    if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                        let t = self.eq(n.b, b);
                        let f = self.eq(n.c, b);
                        return self.ite(n.a, t, f);
                    }
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hk = self.cst(y >> lw, w - lw);
                    let lk = self.cst(y, lw);
                    let h = self.eq(n.a, hk);
                    if self.is_const(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(n.b, lk);
                    return self.and(h, l);
                }
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b, 0, 0);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.max(wb);
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
        }
        if na.op == Op::Add && nb.op == Op::Add {
            if na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.a == nb.a {
                return self.eq(na.b, nb.b);
            }
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.eq(na.a, nb.a);
            let l = self.eq(na.b, nb.b);
            return self.and(h, l);
        }
        if na.op == Op::Add && na.a == b && self.is_const(na.b).is_some() {
            return self.cst(0, 1);
        }
        if nb.op == Op::Add && nb.a == a && self.is_const(nb.b).is_some() {
            return self.cst(0, 1);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    /// sound upper bound of an unsigned value
    fn umax(&self, e: E, d: u32) -> u128 {
        let n = &self.nodes[e as usize];
        let m = mask(n.w as u32);
        if d == 0 {
            return m;
        }
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax(n.a, d - 1),
            Op::Ite => self.umax(n.b, d - 1).max(self.umax(n.c, d - 1)),
            Op::And => self.umax(n.a, d - 1).min(self.umax(n.b, d - 1)),
            Op::Add => self
                .umax(n.a, d - 1)
                .checked_add(self.umax(n.b, d - 1))
                .filter(|s| *s <= m)
                .unwrap_or(m),
            Op::URem => match self.is_const(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => m,
            },
            Op::UDiv => match self.is_const(n.b) {
                Some(k) if k > 0 => self.umax(n.a, d - 1) / k,
                _ => m,
            },
            Op::Concat => {
                let lw = self.w(n.b);
                (self.umax(n.a, d - 1) << lw) | mask(lw)
            }
            Op::Extract => {
                if n.k == 0 {
                    self.umax(n.a, d - 1).min(m)
                } else {
                    (self.umax(n.a, d - 1) >> n.k).min(m)
                }
            }
            _ => m,
        }
    }
    fn umin(&self, e: E, d: u32) -> u128 {
        let n = &self.nodes[e as usize];
        if d == 0 {
            return 0;
        }
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umin(n.a, d - 1),
            Op::Ite => self.umin(n.b, d - 1).min(self.umin(n.c, d - 1)),
            Op::Add => {
                let m = mask(n.w as u32);
                match self.umax(n.a, d - 1).checked_add(self.umax(n.b, d - 1)) {
                    Some(s) if s <= m => self.umin(n.a, d - 1) + self.umin(n.b, d - 1),
                    _ => 0,
                }
            }
            _ => 0,
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst((x < y) as u128, 1);
        }
        if self.umax(a, 6) < self.umin(b, 6) {
            return self.cst(1, 1);
        }
        if self.umin(a, 6) >= self.umax(b, 6) {
            return self.cst(0, 1);
        }
        if let Some(y) = self.is_const(b) {
            if y == 1 {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            let n = self.nodes[a as usize];
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let k = self.cst(y, iw);
                return self.ult(n.a, k);
            }
            if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let t = self.ult(n.b, b);
                let f = self.ult(n.c, b);
                return self.ite(n.a, t, f);
            }
        }
        if let Some(x) = self.is_const(a) {
            if x == 0 {
                let z = self.cst(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            let n = self.nodes[b as usize];
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let k = self.cst(x, iw);
                return self.ult(k, n.a);
            }
            if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let t = self.ult(a, n.b);
                let f = self.ult(a, n.c);
                return self.ite(n.a, t, f);
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst((x <= y) as u128, 1);
        }
        if self.umax(a, 6) <= self.umin(b, 6) {
            return self.cst(1, 1);
        }
        if self.umin(a, 6) > self.umax(b, 6) {
            return self.cst(0, 1);
        }
        // constants: normalise to ult
        if let Some(y) = self.is_const(b) {
            if y == mask(w) {
                return self.cst(1, 1);
            }
            let k = self.cst(y + 1, w);
            return self.ult(a, k);
        }
        if let Some(x) = self.is_const(a) {
            if x == 0 {
                return self.cst(1, 1);
            }
            let k = self.cst(x - 1, w);
            return self.ult(k, b);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ule(x, y);
            }
        }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    fn nonneg(&self, e: E) -> bool {
        let w = self.w(e);
        self.umax(e, 6) <= mask(w) >> 1
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst((sext128(x, w) < sext128(y, w)) as u128, 1);
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        for (cside, other, c_is_b) in [(b, a, true), (a, b, false)] {
            if self.is_const(cside).is_some() {
                let n = self.nodes[other as usize];
                if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let (t, f) = if c_is_b {
                        (self.slt(n.b, cside), self.slt(n.c, cside))
                    } else {
                        (self.slt(cside, n.b), self.slt(cside, n.c))
                    };
                    return self.ite(n.a, t, f);
                }
            }
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst((sext128(x, w) <= sext128(y, w)) as u128, 1);
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ule(a, b);
        }
        if let Some(y) = self.is_const(b) {
            if sext128(y, w) < (mask(w) >> 1) as i128 {
                let k = self.cst(y.wrapping_add(1), w);
                return self.slt(a, k);
            }
            return self.cst(1, 1);
        }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }

    pub fn eval(&mut self, e: E, model: &Model) -> u128 {
        if model.id != self.last_model {
            self.last_model = model.id;
            self.epoch = self.epoch.wrapping_add(1);
        }
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.eval_rec(e, &model.vals)
    }
    /// set of variables of an expression (bitset)
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u64>> {
        if self.vmemo.len() < self.nodes.len() {
            self.vmemo.resize(self.nodes.len() + 1024, None);
        }
        self.vars_rec(e)
    }
    fn vars_rec(&mut self, e: E) -> std::rc::Rc<Vec<u64>> {
        if let Some(v) = &self.vmemo[e as usize] {
            return v.clone();
        }
        let n = self.nodes[e as usize];
        let mut out: Vec<u64> = vec![];
        let kids: &[E] = match n.op {
            Op::Const => &[],
            Op::Var => {
                let i = n.k as usize;
                out.resize(i / 64 + 1, 0);
                out[i / 64] |= 1 << (i % 64);
                &[]
            }
            Op::ZExt | Op::SExt | Op::Extract => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        for &k in kids {
            let v = self.vars_rec(k);
            if out.len() < v.len() {
                out.resize(v.len(), 0);
            }
            for (i, x) in v.iter().enumerate() {
                out[i] |= x;
            }
        }
        let r = std::rc::Rc::new(out);
        self.vmemo[e as usize] = Some(r.clone());
        r
    }
    fn eval_rec(&mut self, e: E, model: &[u128]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w as u32),
            _ => {}
        }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let w = n.w as u32;
        let r = if n.op == Op::Ite {
            if self.eval_rec(n.a, model) & 1 == 1 {
                self.eval_rec(n.b, model)
            } else {
                self.eval_rec(n.c, model)
            }
        } else {
            let a = self.eval_rec(n.a, model);
            match n.op {
                Op::ZExt => a,
                Op::SExt => sext128(a, self.w(n.a)) as u128 & mask(w),
                Op::Extract => (a >> n.k) & mask(w),
                _ => {
                    let b = self.eval_rec(n.b, model);
                    let aw = self.w(n.a);
                    (match n.op {
                        Op::Add => a.wrapping_add(b),
                        Op::Mul => a.wrapping_mul(b),
                        Op::UDiv => {
                            if b == 0 {
                                mask(w)
                            } else {
                                a / b
                            }
                        }
                        Op::URem => {
                            if b == 0 {
                                a
                            } else {
                                a % b
                            }
                        }
                        Op::SDiv => {
                            let (x, y) = (sext128(a, w), sext128(b, w));
                            if y == 0 {
                                if x >= 0 {
                                    mask(w)
                                } else {
                                    1
                                }
                            } else {
                                x.wrapping_div(y) as u128
                            }
                        }
                        Op::SRem => {
                            let (x, y) = (sext128(a, w), sext128(b, w));
                            if y == 0 {
                                a
                            } else {
                                x.wrapping_rem(y) as u128
                            }
                        }
                        Op::And => a & b,
                        Op::Or => a | b,
                        Op::Xor => a ^ b,
                        Op::Shl => {
                            if b >= w as u128 {
                                0
                            } else {
                                a << b
                            }
                        }
                        Op::LShr => {
                            if b >= w as u128 {
                                0
                            } else {
                                a >> b
                            }
                        }
                        Op::AShr => {
                            let s = b.min(w as u128 - 1) as u32;
                            (sext128(a, w) >> s) as u128
                        }
                        Op::Eq => (a == b) as u128,
                        Op::Ult => (a < b) as u128,
                        Op::Ule => (a <= b) as u128,
                        Op::Slt => (sext128(a, aw) < sext128(b, aw)) as u128,
                        Op::Sle => (sext128(a, aw) <= sext128(b, aw)) as u128,
                        Op::Concat => (a << self.w(n.b)) | b,
                        _ => unreachable!(),
                    }) & mask(w)
                }
            }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }
}
