//! Parser for textual LLVM IR (the subset rustc emits).  Function bodies are decoded lazily.
use crate::expr::mask;
use crate::fx::FxMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if t.bits() == 1 {
                    (n + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    /// number of bytes touched by a load/store of the type
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// A runtime value: concrete, symbolic or aggregate.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Intr(Rc<str>),
    Reg(Opd),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(Rc<str>, Ty, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(u64, u32, Opd)>),
    Cast(Cast, Ty, Ty, Opd),
    Select(Opd, Ty, Opd, Opd, bool),
    Phi(Ty, Vec<(u32, Opd)>),
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElem(Opd, Opd),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<u32>),
    Alloca(u64, u64),
    FrameSlot(u64),
    AtomicRmw(Rc<str>, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, Vec<(u128, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Inst {
    pub dst: u32, // u32::MAX = none
    pub dbg: u32,
    pub ins: Ins,
}
pub struct Block {
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub frame_size: u64,
}

pub struct FnDecl {
    pub name: Rc<str>,
    pub body: Option<(usize, usize)>, // line range of the body, header line first
    pub header: usize,
}
pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub is_const: bool,
}

pub const FN_BASE: u64 = 0x4000_0000;

pub struct Module {
    pub lines: Vec<&'static str>,
    pub fns: Vec<FnDecl>,
    pub fn_ids: FxMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub glob_ids: FxMap<&'static str, u32>,
    pub aliases: FxMap<&'static str, &'static str>,
    pub types: FxMap<&'static str, Ty>,
    pub md: FxMap<u32, &'static str>,
    pub md_max: u32,
}

pub struct P<'a> {
    s: &'a [u8],
    pub i: usize,
    m: &'a Module,
    regs: Option<&'a mut FxMap<String, u32>>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {}", c as char, self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let e = (self.i + 60).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.i.min(e)..e]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.word() == w {
            true
        } else {
            self.i = i;
            false
        }
    }
    /// identifier after a sigil, possibly quoted
    fn name(&mut self) -> &'a str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            std::str::from_utf8(&self.s[st..self.i - 1]).unwrap()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap()
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                    return true;
                }
                matches!(w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "token" | "label" | "x86_fp80" | "fp128")
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}')?;
                    self.need(b'>')?;
                    Ok(Ty::Struct(Rc::new(f), true))
                } else {
                    let n: u64 = self.word().parse().map_err(|_| "vec len".to_string())?;
                    if !self.eat_word("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.need(b'>')?;
                    Ok(Ty::Vec(n, Rc::new(t)))
                }
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "arr len".to_string())?;
                if !self.eat_word("x") {
                    return Err("arr x".into());
                }
                let t = self.ty()?;
                self.need(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(n).cloned().ok_or_else(|| format!("type %{}", n))
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.ws();
                            self.skip_paren();
                        }
                        Ok(Ty::Ptr)
                    }
                    "void" => Ok(Ty::Void),
                    "float" => Ok(Ty::F32),
                    "double" => Ok(Ty::F64),
                    "metadata" | "token" | "label" | "half" | "x86_fp80" | "fp128" => Ok(Ty::Other),
                    _ if w.starts_with('i') => w[1..].parse().map(Ty::Int).map_err(|_| format!("type {}", w)),
                    _ => Err(format!("type '{}' at {}", w, self.ctx())),
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat(end) {
                return Ok(f);
            }
            self.need(b',')?;
        }
    }
    /// skip attributes between a type and a value
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c.is_ascii_alphabetic() {
                let i = self.i;
                let w = self.word();
                // value keywords
                if matches!(
                    w,
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "c" | "splat" | "blockaddress" | "asm" | "dso_local_equivalent" | "no_cfi" | "addrspacecast"
                ) {
                    self.i = i;
                    return;
                }
                if w == "align" && self.peek().is_ascii_digit() {
                    self.word();
                    continue;
                }
                if self.peek() == b'(' {
                    self.ws();
                    self.skip_paren();
                }
            } else if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
            } else {
                return;
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        if let Some(&i) = r.get(n) {
            return i;
        }
        let i = r.len() as u32;
        r.insert(n.to_string(), i);
        i
    }
    fn zero(t: &Ty) -> Val {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                Val::Agg(Rc::new((0..t.nelem()).map(|i| Self::zero(&t.elem(i))).collect()))
            }
            _ => Val::C(0),
        }
    }
    fn opd(&mut self, t: &Ty) -> R<Opd> {
        self.skip_attrs();
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            return Ok(Opd::R(self.reg(n)));
        }
        Ok(Opd::K(self.konst(t)?))
    }
    fn ty_opd(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }
    fn ty_konst(&mut self) -> R<(Ty, Val)> {
        let t = self.ty()?;
        let v = self.konst(&t)?;
        Ok((t, v))
    }
    fn scalar(v: &Val) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            _ => Err("non scalar const".into()),
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn konst(&mut self, t: &Ty) -> R<Val> {
        let c = self.peek();
        if c.is_ascii_digit() || c == b'-' {
            let w = self.word();
            if matches!(t, Ty::F32 | Ty::F64) {
                if let Some(h) = w.strip_prefix("0x") {
                    let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    return Ok(Val::C(if *t == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 }));
                }
                // decimal like 1.000000e+00: word() stops at '+'
                let mut txt = w.to_string();
                if self.i < self.s.len() && self.s[self.i] == b'+' {
                    self.i += 1;
                    txt.push_str(self.word());
                }
                let f: f64 = txt.parse().map_err(|_| format!("float {}", txt))?;
                return Ok(Val::C(if *t == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }));
            }
            let m = mask(t.bits().max(1));
            return if w.starts_with('-') {
                w.parse::<i128>().map(|x| Val::C(x as u128 & m)).map_err(|_| format!("int {}", w))
            } else {
                w.parse::<u128>().map(|x| Val::C(x & m)).map_err(|_| format!("int {}", w))
            };
        }
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return self.m.sym_addr(n).map(|a| Val::C(a as u128)).ok_or_else(|| format!("symbol @{}", n));
            }
            b'{' | b'[' => {
                self.i += 1;
                let end = if c == b'{' { b'}' } else { b']' };
                let mut v = vec![];
                if !self.eat(end) {
                    loop {
                        v.push(self.ty_konst()?.1);
                        if self.eat(end) {
                            break;
                        }
                        self.need(b',')?;
                    }
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let r = self.konst(t)?;
                    self.need(b'>')?;
                    return Ok(r);
                }
                let mut v = vec![];
                loop {
                    v.push(self.ty_konst()?.1);
                    if self.eat(b'>') {
                        break;
                    }
                    self.need(b',')?;
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => Ok(Val::C(1)),
            "false" => Ok(Val::C(0)),
            "null" | "none" => Ok(Val::C(0)),
            "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(t)),
            "c" => {
                let b = self.cstr();
                Ok(Val::Agg(Rc::new(b.into_iter().map(|x| Val::C(x as u128)).collect())))
            }
            "splat" => {
                self.need(b'(')?;
                let v = self.ty_konst()?.1;
                self.need(b')')?;
                Ok(Val::Agg(Rc::new(vec![v; t.nelem()])))
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    let w = self.word();
                    if w.is_empty() {
                        return Err("gep const".into());
                    }
                    if w == "inrange" {
                        self.skip_paren();
                    }
                }
                self.need(b'(')?;
                let bt = self.ty()?;
                self.need(b',')?;
                let (_, b) = self.ty_konst()?;
                let mut off: i64 = 0;
                let mut cur = bt.clone();
                let mut first = true;
                while self.eat(b',') {
                    let (it, iv) = self.ty_konst()?;
                    let k = crate::expr::sext128(Self::scalar(&iv)?, it.bits()) as i64;
                    if first {
                        off += k * bt.size() as i64;
                        first = false;
                    } else {
                        off += match &cur {
                            Ty::Struct(..) => cur.field_off(k as usize) as i64,
                            _ => k * cur.elem(0).size() as i64,
                        };
                        cur = cur.elem(if let Ty::Struct(..) = cur { k as usize } else { 0 });
                    }
                }
                self.need(b')')?;
                Ok(Val::C((Self::scalar(&b)? as u64).wrapping_add(off as u64) as u128))
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.need(b'(')?;
                let (_, v) = self.ty_konst()?;
                if !self.eat_word("to") {
                    return Err("cast const".into());
                }
                let t2 = self.ty()?;
                self.need(b')')?;
                Ok(Val::C(Self::scalar(&v)? & mask(t2.bits())))
            }
            "sub" | "add" | "xor" => {
                while self.peek() != b'(' {
                    if self.word().is_empty() {
                        return Err("bin const".into());
                    }
                }
                self.need(b'(')?;
                let (t1, a) = self.ty_konst()?;
                self.need(b',')?;
                let (_, b) = self.ty_konst()?;
                self.need(b')')?;
                let (a, b) = (Self::scalar(&a)?, Self::scalar(&b)?);
                let m = mask(t1.bits());
                Ok(Val::C(match w {
                    "sub" => a.wrapping_sub(b) & m,
                    "add" => a.wrapping_add(b) & m,
                    _ => a ^ b,
                }))
            }
            _ => Err(format!("constant '{}' {}", w, self.ctx())),
        }
    }
    fn label(&mut self) -> R<&'a str> {
        if !self.eat_word("label") {
            return Err(format!("label expected: {}", self.ctx()));
        }
        self.need(b'%')?;
        Ok(self.name())
    }
}

fn to_bytes(t: &Ty, v: &Val, out: &mut [u8]) {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            if let Val::Agg(a) = v {
                for i in 0..t.nelem() {
                    let et = t.elem(i);
                    let o = t.field_off(i) as usize;
                    to_bytes(&et, &a[i], &mut out[o..]);
                }
            }
        }
        _ => {
            if let Val::C(x) = v {
                let n = t.store_size() as usize;
                for j in 0..n {
                    out[j] = (x >> (8 * j)) as u8;
                }
            }
        }
    }
}

impl Module {
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        let n = *self.aliases.get(n).unwrap_or(&self.intern_lookup(n)?);
        if let Some(&g) = self.glob_ids.get(n) {
            return Some((g as u64 + 1) << 32);
        }
        if let Some(&f) = self.fn_ids.get(n) {
            return Some((FN_BASE + f as u64) << 32);
        }
        None
    }
    fn intern_lookup(&self, n: &str) -> Option<&'static str> {
        if let Some((k, _)) = self.aliases.get_key_value(n) {
            return Some(k);
        }
        if let Some((k, _)) = self.glob_ids.get_key_value(n) {
            return Some(k);
        }
        self.fn_ids.get_key_value(n).map(|(k, _)| *k)
    }
    pub fn fn_id(&self, n: &str) -> Option<u32> {
        let n = self.intern_lookup(n)?;
        let n = *self.aliases.get(n).unwrap_or(&n);
        self.fn_ids.get(n).copied()
    }

    pub fn parse(text: &'static str) -> R<Module> {
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines,
            fns: vec![],
            fn_ids: FxMap::default(),
            globals: vec![],
            glob_ids: FxMap::default(),
            aliases: FxMap::default(),
            types: FxMap::default(),
            md: FxMap::default(),
            md_max: 0,
        };
        let mut glob_lines = vec![];
        let mut i = 0;
        let n = m.lines.len();
        while i < n {
            let l = m.lines[i];
            let b = l.as_bytes();
            if l.starts_with("define") || l.starts_with("declare") {
                let at = find_fn_name(l).ok_or("fn name")?;
                let id = m.fns.len() as u32;
                let start = i;
                let is_def = l.starts_with("define");
                if is_def {
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                }
                m.fns.push(FnDecl {
                    name: Rc::from(at),
                    body: if is_def { Some((start + 1, i)) } else { None },
                    header: start,
                });
                m.fn_ids.insert(at, id);
            } else if !b.is_empty() && b[0] == b'@' {
                glob_lines.push(i);
            } else if !b.is_empty() && b[0] == b'%' && l.contains(" = type ") {
                let (name, rest) = l.split_once(" = type ").unwrap();
                let name = name.trim_start_matches('%').trim_matches('"');
                if rest.trim() != "opaque" {
                    let t = {
                        let mut p = P { s: rest.as_bytes(), i: 0, m: &m, regs: None };
                        p.ty()?
                    };
                    m.types.insert(name, t);
                }
            } else if !b.is_empty() && b[0] == b'!' && b.len() > 1 && b[1].is_ascii_digit() {
                if let Some((id, rest)) = l[1..].split_once(" = ") {
                    if let Ok(k) = id.parse::<u32>() {
                        m.md.insert(k, rest);
                        m.md_max = m.md_max.max(k);
                    }
                }
            }
            i += 1;
        }
        // declare globals
        let mut todo = vec![];
        for gi in glob_lines {
            let l = m.lines[gi];
            let (nm, rest) = split_global(l).ok_or_else(|| format!("global {}", l))?;
            // find keyword
            let mut words = rest;
            let mut alias = false;
            let mut is_const = false;
            let mut external = false;
            loop {
                let w = words.trim_start();
                let e = w.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(w.len());
                let tok = &w[..e];
                let mut r = &w[e..];
                if r.starts_with('(') {
                    let close = r.find(')').unwrap();
                    r = &r[close + 1..];
                }
                words = r;
                match tok {
                    "global" => break,
                    "constant" => {
                        is_const = true;
                        break;
                    }
                    "alias" | "ifunc" => {
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "" => return Err(format!("global parse {}", l)),
                    _ => {}
                }
            }
            if alias {
                let at = words.rfind("ptr @").ok_or("alias")?;
                let t = words[at + 5..].trim();
                let e = t.find([',', ' ']).unwrap_or(t.len());
                m.aliases.insert(nm, t[..e].trim_matches('"'));
                continue;
            }
            let id = m.globals.len() as u32;
            m.globals.push(Global { name: nm.to_string(), data: vec![], is_const });
            m.glob_ids.insert(nm, id);
            todo.push((id, words, external));
        }
        for (id, words, external) in todo {
            let data = {
                let mut p = P { s: words.as_bytes(), i: 0, m: &m, regs: None };
                let t = p.ty()?;
                let mut d = vec![0u8; t.size() as usize];
                if !external {
                    let v = p.konst(&t).map_err(|e| format!("{} in {}", e, words))?;
                    to_bytes(&t, &v, &mut d);
                }
                d
            };
            m.globals[id as usize].data = data;
        }
        Ok(m)
    }

    pub fn decode(&self, id: u32) -> R<Func> {
        let d = &self.fns[id as usize];
        let (s, e) = d.body.ok_or("no body")?;
        let mut regs: FxMap<String, u32> = FxMap::default();
        // parameters
        let nparams;
        let mut unnamed = 0;
        {
            let hl = self.lines[d.header];
            let pos = find_fn_paren(hl).ok_or("header")?;
            let mut p = P { s: hl.as_bytes(), i: pos + 1, m: self, regs: Some(&mut regs) };
            let mut n = 0;
            if !p.eat(b')') {
                loop {
                    if p.peek() == b'.' {
                        break;
                    }
                    let _t = p.ty()?;
                    p.skip_attrs();
                    if p.peek() == b'%' {
                        p.i += 1;
                        let nm = p.name();
                        if nm.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        p.reg(nm);
                    } else {
                        p.reg(&format!("{}", unnamed));
                        unnamed += 1;
                    }
                    n += 1;
                    if p.eat(b')') {
                        break;
                    }
                    p.need(b',')?;
                }
            }
            nparams = n;
        }
        // logical lines
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut i = s;
        while i < e {
            let l = self.lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            let tr = l.trim_start();
            if tr.starts_with("#dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let end = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').ok_or("label")? };
                blocks.push((l[..end].trim_matches('"').to_string(), vec![]));
                continue;
            }
            if blocks.is_empty() {
                blocks.push(("__entry".to_string(), vec![]));
            }
            let cur = &mut blocks.last_mut().unwrap().1;
            if l.starts_with("    ") || tr == "]" || tr.starts_with("], ") {
                let last = cur.last_mut().ok_or("continuation")?;
                last.push(' ');
                last.push_str(tr);
            } else {
                cur.push(tr.to_string());
            }
        }
        let mut labels: FxMap<String, u32> = FxMap::default();
        for (k, (n, _)) in blocks.iter().enumerate() {
            labels.insert(n.clone(), k as u32);
        }
        // implicit entry label number: the entry block of an unnamed function takes the next number
        if blocks.first().map(|b| b.0 == "__entry").unwrap_or(false) {
            labels.insert(format!("{}", unnamed), 0);
        }
        let mut frame_size = 0u64;
        let mut out = vec![];
        for (bi, (_, ls)) in blocks.iter().enumerate() {
            let mut insts = vec![];
            for l in ls {
                let mut p = P { s: l.as_bytes(), i: 0, m: self, regs: Some(&mut regs) };
                let mut dst = u32::MAX;
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    dst = p.reg(n);
                    p.need(b'=')?;
                }
                let dbg = l
                    .rfind("!dbg !")
                    .and_then(|k| {
                        let t = &l[k + 6..];
                        let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
                        t[..e].parse().ok()
                    })
                    .unwrap_or(u32::MAX);
                let ins = match parse_ins(&mut p, &labels) {
                    Ok(x) => x,
                    Err(er) => Ins::Unsupported(Rc::from(format!("{} [{}]", l, er))),
                };
                let ins = match ins {
                    Ins::Alloca(sz, al) if bi == 0 => {
                        let al = al.max(1);
                        frame_size = (frame_size + al - 1) / al * al;
                        let o = frame_size;
                        frame_size += sz;
                        Ins::FrameSlot(o)
                    }
                    x => x,
                };
                if let Ins::Nop = ins {
                    continue;
                }
                insts.push(Inst { dst, dbg, ins });
            }
            out.push(Block { insts });
        }
        Ok(Func { name: d.name.clone(), id, nparams: nparams as u32, nregs: regs.len() as u32, blocks: out, frame_size })
    }
}

fn find_fn_name(l: &'static str) -> Option<&'static str> {
    let at = l.find('@')?;
    let r = &l[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        Some(&q[..e])
    } else {
        let e = r.find('(')?;
        Some(&r[..e])
    }
}
fn find_fn_paren(l: &str) -> Option<usize> {
    let at = l.find('@')?;
    let r = &l[at + 1..];
    if r.starts_with('"') {
        let e = r[1..].find('"')?;
        Some(at + 1 + e + 2)
    } else {
        Some(at + 1 + r.find('(')?)
    }
}
fn split_global(l: &'static str) -> Option<(&'static str, &'static str)> {
    let r = &l[1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        Some((&q[..e], q[e + 1..].trim_start().strip_prefix('=')?))
    } else {
        let (n, rest) = r.split_once(" = ")?;
        Some((n, rest))
    }
}

fn bin_of(w: &str) -> Option<Bin> {
    Some(match w {
        "add" => Bin::Add,
        "sub" => Bin::Sub,
        "mul" => Bin::Mul,
        "udiv" => Bin::UDiv,
        "sdiv" => Bin::SDiv,
        "urem" => Bin::URem,
        "srem" => Bin::SRem,
        "shl" => Bin::Shl,
        "lshr" => Bin::LShr,
        "ashr" => Bin::AShr,
        "and" => Bin::And,
        "or" => Bin::Or,
        "xor" => Bin::Xor,
        "fadd" => Bin::FAdd,
        "fsub" => Bin::FSub,
        "fmul" => Bin::FMul,
        "fdiv" => Bin::FDiv,
        _ => return None,
    })
}

fn parse_ins(p: &mut P, labels: &FxMap<String, u32>) -> R<Ins> {
    let lab = |n: &str| labels.get(n).copied().ok_or_else(|| format!("label {}", n));
    let mut w = p.word();
    if matches!(w, "tail" | "musttail" | "notail") {
        w = p.word();
    }
    if let Some(b) = bin_of(w) {
        while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
            p.word();
        }
        let t = p.ty()?;
        let a = p.opd(&t)?;
        p.need(b',')?;
        let c = p.opd(&t)?;
        return Ok(Ins::Bin(b, t, a, c));
    }
    match w {
        "icmp" => {
            if p.peek_word() == "samesign" {
                p.word();
            }
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => return Err(format!("pred {}", x)),
            };
            let t = p.ty()?;
            let a = p.opd(&t)?;
            p.need(b',')?;
            let b = p.opd(&t)?;
            Ok(Ins::Icmp(pr, t, a, b))
        }
        "fcmp" => {
            let mut w = p.word();
            while matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                w = p.word();
            }
            let pr: Rc<str> = w.into();
            let t = p.ty()?;
            let a = p.opd(&t)?;
            p.need(b',')?;
            let b = p.opd(&t)?;
            Ok(Ins::Fcmp(pr, t, a, b))
        }
        "fneg" => {
            let t = p.ty()?;
            let a = p.opd(&t)?;
            let zero = if t == Ty::F32 { (-0f32).to_bits() as u128 } else { (-0f64).to_bits() as u128 };
            Ok(Ins::Bin(Bin::FSub, t, Opd::K(Val::C(zero)), a))
        }
        "load" => {
            while matches!(p.peek_word(), "volatile" | "atomic") {
                p.word();
            }
            let t = p.ty()?;
            p.need(b',')?;
            let (_, a) = p.ty_opd()?;
            Ok(Ins::Load(t, a))
        }
        "store" => {
            while matches!(p.peek_word(), "volatile" | "atomic") {
                p.word();
            }
            let (t, v) = p.ty_opd()?;
            p.need(b',')?;
            let (_, a) = p.ty_opd()?;
            Ok(Ins::Store(t, v, a))
        }
        "getelementptr" => {
            loop {
                match p.peek_word() {
                    "inbounds" | "nuw" | "nusw" => {
                        p.word();
                    }
                    "inrange" => {
                        p.word();
                        p.ws();
                        p.skip_paren();
                    }
                    _ => break,
                }
            }
            let bt = p.ty()?;
            p.need(b',')?;
            let (pt, base) = p.ty_opd()?;
            if pt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = bt.clone();
            let mut first = true;
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let (it, iv) = p.ty_opd()?;
                let (scale, next);
                if first {
                    scale = bt.size();
                    next = cur.clone();
                    first = false;
                } else if let Ty::Struct(..) = cur {
                    let k = match &iv {
                        Opd::K(Val::C(k)) => *k as usize,
                        _ => return Err("struct gep".into()),
                    };
                    off += cur.field_off(k) as i64;
                    cur = cur.elem(k);
                    continue;
                } else {
                    let e = cur.elem(0);
                    scale = e.size();
                    next = e;
                }
                cur = next;
                match iv {
                    Opd::K(Val::C(k)) => off = off.wrapping_add((crate::expr::sext128(k, it.bits()) as i64).wrapping_mul(scale as i64)),
                    o => idx.push((scale, it.bits(), o)),
                }
            }
            Ok(Ins::Gep(base, off, idx))
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            while matches!(p.peek_word(), "nneg" | "nuw" | "nsw" | "samesign") {
                p.word();
            }
            let (t, v) = p.ty_opd()?;
            if !p.eat_word("to") {
                return Err("cast to".into());
            }
            let t2 = p.ty()?;
            let k = match w {
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "trunc" => Cast::Trunc,
                "bitcast" | "addrspacecast" => Cast::Bit,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                _ => {
                    if t.bits() < t2.bits() {
                        Cast::ZExt
                    } else {
                        Cast::Trunc
                    }
                }
            };
            Ok(Ins::Cast(k, t, t2, v))
        }
        "select" => {
            let (ct, c) = p.ty_opd()?;
            p.need(b',')?;
            let (t, a) = p.ty_opd()?;
            p.need(b',')?;
            let (_, b) = p.ty_opd()?;
            Ok(Ins::Select(c, t, a, b, matches!(ct, Ty::Vec(..))))
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.need(b'[')?;
                let o = p.opd(&t)?;
                p.need(b',')?;
                p.need(b'%')?;
                let n = p.name();
                p.need(b']')?;
                v.push((lab(n)?, o));
                if !p.eat(b',') || p.peek() == b'!' {
                    break;
                }
            }
            Ok(Ins::Phi(t, v))
        }
        "br" => {
            if p.peek_word() == "label" {
                let n = p.label()?;
                return Ok(Ins::Br(lab(n)?));
            }
            let (_, c) = p.ty_opd()?;
            p.need(b',')?;
            let a = p.label()?;
            p.need(b',')?;
            let b = p.label()?;
            Ok(Ins::CondBr(c, lab(a)?, lab(b)?))
        }
        "switch" => {
            let (t, c) = p.ty_opd()?;
            p.need(b',')?;
            let d = p.label()?;
            p.need(b'[')?;
            let mut v = vec![];
            while !p.eat(b']') {
                let (_, k) = p.ty_konst()?;
                p.need(b',')?;
                let l = p.label()?;
                v.push((P::scalar(&k)?, lab(l)?));
            }
            Ok(Ins::Switch(t, c, v, lab(d)?))
        }
        "ret" => {
            if p.peek_word() == "void" {
                return Ok(Ins::Ret(None));
            }
            let (_, o) = p.ty_opd()?;
            Ok(Ins::Ret(Some(o)))
        }
        "unreachable" => Ok(Ins::Unreachable),
        "fence" => Ok(Ins::Nop),
        "freeze" => {
            let (_, o) = p.ty_opd()?;
            Ok(Ins::Freeze(o))
        }
        "alloca" => {
            let t = p.ty()?;
            let mut n = 1;
            let mut al = t.align();
            while p.eat(b',') {
                if p.eat_word("align") {
                    al = p.word().parse().unwrap_or(1);
                } else if p.peek() == b'!' {
                    break;
                } else {
                    let (_, k) = p.ty_opd()?;
                    match k {
                        Opd::K(Val::C(x)) => n = x as u64,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
            }
            Ok(Ins::Alloca(t.size() * n, al))
        }
        "extractvalue" => {
            let (_, a) = p.ty_opd()?;
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.word().parse::<u32>().map_err(|e| e.to_string())?);
            }
            Ok(Ins::ExtractValue(a, ix))
        }
        "insertvalue" => {
            let (t, a) = p.ty_opd()?;
            p.need(b',')?;
            let (_, b) = p.ty_opd()?;
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.word().parse::<u32>().map_err(|e| e.to_string())?);
            }
            Ok(Ins::InsertValue(t, a, b, ix))
        }
        "extractelement" => {
            let (_, a) = p.ty_opd()?;
            p.need(b',')?;
            let (_, b) = p.ty_opd()?;
            Ok(Ins::ExtractElem(a, b))
        }
        "insertelement" => {
            let (t, a) = p.ty_opd()?;
            p.need(b',')?;
            let (_, b) = p.ty_opd()?;
            p.need(b',')?;
            let (_, c) = p.ty_opd()?;
            Ok(Ins::InsertElem(t, a, b, c))
        }
        "shufflevector" => {
            let (t, a) = p.ty_opd()?;
            p.need(b',')?;
            let (_, b) = p.ty_opd()?;
            p.need(b',')?;
            let (_, m) = p.ty_konst()?;
            let m = match m {
                Val::Agg(v) => v.iter().map(|x| P::scalar(x).map(|k| k as u32)).collect::<R<Vec<u32>>>()?,
                _ => return Err("mask".into()),
            };
            Ok(Ins::Shuffle(t, a, b, m))
        }
        "atomicrmw" => {
            if p.peek_word() == "volatile" {
                p.word();
            }
            let op = p.word().to_string();
            let (_, a) = p.ty_opd()?;
            p.need(b',')?;
            let (t, v) = p.ty_opd()?;
            Ok(Ins::AtomicRmw(Rc::from(op), t, a, v))
        }
        "cmpxchg" => {
            while matches!(p.peek_word(), "volatile" | "weak") {
                p.word();
            }
            let (_, a) = p.ty_opd()?;
            p.need(b',')?;
            let (t, c) = p.ty_opd()?;
            p.need(b',')?;
            let (_, n) = p.ty_opd()?;
            Ok(Ins::CmpXchg(t, a, c, n))
        }
        "call" | "invoke" => {
            // flags, cconv, ret attrs
            while !p.at_type() {
                let c = p.peek();
                if c.is_ascii_alphabetic() {
                    let x = p.word();
                    if x == "align" {
                        p.word();
                    } else if p.peek() == b'(' {
                        p.ws();
                        p.skip_paren();
                    }
                } else if c.is_ascii_digit() {
                    p.word();
                } else {
                    return Err("call head".into());
                }
            }
            let rt = p.ty()?;
            if p.peek() == b'(' {
                p.ws();
                p.skip_paren();
            }
            let callee;
            if p.peek() == b'@' {
                p.i += 1;
                let n = p.name();
                if n.starts_with("llvm.") {
                    callee = Callee::Intr(Rc::from(n));
                } else {
                    callee = Callee::Fn(p.m.fn_id(n).ok_or_else(|| format!("callee {}", n))?);
                }
            } else if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                let r = p.reg(n);
                callee = Callee::Reg(Opd::R(r));
            } else {
                if p.peek_word() == "asm" {
                    let rest = String::from_utf8_lossy(&p.s[p.i..]).into_owned();
                    // empty asm (black_box / compiler barriers)
                    if rest.contains("\"\",") && rt == Ty::Void {
                        return Ok(Ins::Nop);
                    }
                    return Err("asm".into());
                }
                let k = p.konst(&Ty::Ptr)?;
                callee = Callee::Reg(Opd::K(k));
            }
            p.need(b'(')?;
            let mut args = vec![];
            let is_intr_md = matches!(&callee, Callee::Intr(n) if n.contains("noalias.scope") || n.contains("llvm.dbg") || n.contains("lifetime") || n.contains("llvm.assume") || n.contains("llvm.donothing"));
            if is_intr_md {
                return Ok(Ins::Nop);
            }
            if !p.eat(b')') {
                loop {
                    let (t, o) = p.ty_opd()?;
                    args.push((t, o));
                    if p.eat(b')') {
                        break;
                    }
                    p.need(b',')?;
                }
            }
            let mut normal = None;
            if w == "invoke" {
                let rest = std::str::from_utf8(&p.s[p.i..]).unwrap();
                let k = rest.find("to label %").ok_or("invoke dest")?;
                p.i += k + 10;
                let n = p.name();
                normal = Some(lab(n)?);
            }
            Ok(Ins::Call(callee, args, rt, normal))
        }
        "landingpad" | "resume" => Ok(Ins::Unsupported(Rc::from("landingpad"))),
        _ => Err("opcode".into()),
    }
}
