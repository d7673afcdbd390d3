//! Hash-consed bit-vector expressions over 8-bit symbolic input bytes, with a
//! semantics-preserving simplifier, a concrete evaluator and per-variable
//! truth tables.
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    // floating point on IEEE bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FLt,
    FLe,
    FEq,
    FUno,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Un {
    ZExt,
    SExt,
    Extract(u8),
    FToUI,
    FToSI,
    UIToF,
    SIToF,
    FExt,
    FTrunc,
    FFloor,
    FCeil,
    FTruncI,
    FRoundEven,
    FRound,
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Const(u128),
    Var(u32),
    Bin(Op, Id, Id),
    Un(Un, Id),
    Ite(Id, Id, Id),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sup {
    None,
    One(u32),
    Many(u32),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub e: E,
    pub w: u8,
    pub sup: Sup,
}

pub type Bits = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(E, u8), Id, FxBuild>,
    /// What unary operations on composite expressions were rewritten to.
    rewritten: HashMap<(E, u8), Id, FxBuild>,
    sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Rc<Vec<u32>>, u32, FxBuild>,
    union_cache: HashMap<(Sup, Sup), Sup, FxBuild>,
    tabs: HashMap<Id, Rc<[u64; 256]>, FxBuild>,
    bits: HashMap<Id, Bits, FxBuild>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    pub tru: Id,
    pub fls: Id,
}

#[derive(Default, Clone, Copy)]
pub struct FxBuild;
impl std::hash::BuildHasher for FxBuild {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(x: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((x << s) as i128) >> s
}

pub fn fp_bin(op: Op, w: u32, x: u128, y: u128) -> u128 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FRem => (a % b).to_bits() as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FEq => (a == b) as u128,
            Op::FUno => (a.is_nan() || b.is_nan()) as u128,
            _ => unreachable!(),
        }
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FRem => (a % b).to_bits() as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FEq => (a == b) as u128,
            Op::FUno => (a.is_nan() || b.is_nan()) as u128,
            _ => unreachable!(),
        }
    }
}

/// Evaluates a binary operation. `w` is the operand width (of the left operand).
pub fn eval_bin(op: Op, w: u32, wb: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                (if a < 0 { 1 } else { m }) & m
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext(x, w);
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((a >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        Op::Concat => (x << wb) | y,
        _ => fp_bin(op, w, x, y),
    }
}

pub fn eval_un(u: Un, wi: u32, w: u32, x: u128) -> u128 {
    let m = mask(w);
    match u {
        Un::ZExt => x,
        Un::SExt => (sext(x, wi) as u128) & m,
        Un::Extract(lo) => (x >> lo) & m,
        Un::FToUI => {
            let f = tof(wi, x);
            // saturating, as the fptoui.sat intrinsic
            if f.is_nan() || f <= 0.0 {
                0
            } else if f >= (2f64).powi(w as i32) {
                m
            } else {
                (f as u128) & m
            }
        }
        Un::FToSI => {
            let f = tof(wi, x);
            let hi = mask(w - 1);
            if f.is_nan() {
                0
            } else if f >= (2f64).powi(w as i32 - 1) {
                hi
            } else if f < -(2f64).powi(w as i32 - 1) {
                hi + 1
            } else {
                (f as i128 as u128) & m
            }
        }
        Un::UIToF => {
            if w == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        Un::SIToF => {
            let s = sext(x, wi);
            if w == 64 {
                (s as f64).to_bits() as u128
            } else {
                (s as f32).to_bits() as u128
            }
        }
        Un::FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        Un::FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        Un::FFloor | Un::FCeil | Un::FTruncI | Un::FRoundEven | Un::FRound | Un::FSqrt => {
            if w == 64 {
                let f = f64::from_bits(x as u64);
                (match u {
                    Un::FFloor => f.floor(),
                    Un::FCeil => f.ceil(),
                    Un::FTruncI => f.trunc(),
                    Un::FRoundEven => f.round_ties_even(),
                    Un::FRound => f.round(),
                    _ => f.sqrt(),
                })
                .to_bits() as u128
            } else {
                let f = f32::from_bits(x as u32);
                (match u {
                    Un::FFloor => f.floor(),
                    Un::FCeil => f.ceil(),
                    Un::FTruncI => f.trunc(),
                    Un::FRoundEven => f.round_ties_even(),
                    Un::FRound => f.round(),
                    _ => f.sqrt(),
                })
                .to_bits() as u128
            }
        }
    }
}
/// The bits of integers that a number of the width holds exactly.
fn exact(w: u32) -> u32 {
    match w {
        32 => 24,
        64 => 53,
        _ => 0,
    }
}

fn tof(w: u32, x: u128) -> f64 {
    if w == 64 {
        f64::from_bits(x as u64)
    } else {
        f32::from_bits(x as u32) as f64
    }
}

impl Arena {
    /// Whether an expression has more than `n` nodes, as a tree.
    pub fn larger(&self, e: Id, n: u32) -> bool {
        fn go(a: &Arena, e: Id, n: &mut u32) -> bool {
            if *n == 0 {
                return true;
            }
            *n -= 1;
            match a.nodes[e as usize].e {
                E::Const(_) | E::Var(_) => false,
                E::Un(_, x) => go(a, x, n),
                E::Bin(_, x, y) => go(a, x, n) || go(a, y, n),
                E::Ite(x, y, z) => go(a, x, n) || go(a, y, n) || go(a, z, n),
            }
        }
        let mut k = n;
        go(self, e, &mut k)
    }
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            rewritten: Default::default(),
            sets: vec![],
            setmap: Default::default(),
            union_cache: Default::default(),
            tabs: Default::default(),
            bits: Default::default(),
            memo: vec![],
            epoch: 0,
            tru: 0,
            fls: 0,
        };
        // id 0 is reserved ("no expression" in memory overlays)
        a.nodes.push(Node { e: E::Const(0), w: 0, sup: Sup::None });
        a.memo.push((0, 0));
        a.fls = a.konst(1, 0);
        a.tru = a.konst(1, 1);
        a
    }

    fn intern(&mut self, e: E, w: u32, sup: Sup) -> Id {
        if let Some(&i) = self.map.get(&(e, w as u8)) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(Node { e, w: w as u8, sup });
        self.memo.push((0, 0));
        self.map.insert((e, w as u8), i);
        i
    }
    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].w as u32
    }
    pub fn e(&self, i: Id) -> E {
        self.nodes[i as usize].e
    }
    pub fn sup(&self, i: Id) -> Sup {
        self.nodes[i as usize].sup
    }
    pub fn as_const(&self, i: Id) -> Option<u128> {
        match self.e(i) {
            E::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn konst(&mut self, w: u32, v: u128) -> Id {
        assert!(w <= 128, "integer too wide: {w}");
        self.intern(E::Const(v & mask(w)), w, Sup::None)
    }
    pub fn var(&mut self, n: u32) -> Id {
        self.intern(E::Var(n), 8, Sup::One(n))
    }
    pub fn vars(&self, s: Sup) -> Vec<u32> {
        match s {
            Sup::None => vec![],
            Sup::One(v) => vec![v],
            Sup::Many(k) => (*self.sets[k as usize]).clone(),
        }
    }
    pub fn vars_rc(&self, k: u32) -> Rc<Vec<u32>> {
        self.sets[k as usize].clone()
    }
    fn join(&mut self, a: Sup, b: Sup) -> Sup {
        if a == b || b == Sup::None {
            return a;
        }
        if a == Sup::None {
            return b;
        }
        if let Some(&s) = self.union_cache.get(&(a, b)) {
            return s;
        }
        let mut v = self.vars(a);
        v.extend(self.vars(b));
        v.sort_unstable();
        v.dedup();
        let r = Rc::new(v);
        let k = match self.setmap.get(&r) {
            Some(&k) => k,
            None => {
                let k = self.sets.len() as u32;
                self.sets.push(r.clone());
                self.setmap.insert(r, k);
                k
            }
        };
        let s = Sup::Many(k);
        self.union_cache.insert((a, b), s);
        s
    }

    pub fn not(&mut self, a: Id) -> Id {
        debug_assert_eq!(self.w(a), 1);
        match self.e(a) {
            E::Const(c) => {
                if c == 0 {
                    self.tru
                } else {
                    self.fls
                }
            }
            E::Bin(Op::Xor, x, k) if k == self.tru => x,
            E::Bin(Op::Ult, x, y) => self.bin(Op::Ule, y, x),
            E::Bin(Op::Ule, x, y) => self.bin(Op::Ult, y, x),
            E::Bin(Op::Slt, x, y) => self.bin(Op::Sle, y, x),
            E::Bin(Op::Sle, x, y) => self.bin(Op::Slt, y, x),
            _ => {
                let s = self.sup(a);
                let t = self.tru;
                self.intern(E::Bin(Op::Xor, a, t), 1, s)
            }
        }
    }
    pub fn is_not(&self, a: Id) -> Option<Id> {
        match self.e(a) {
            E::Bin(Op::Xor, x, k) if k == self.tru => Some(x),
            _ => None,
        }
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if c == self.tru || a == b {
            return a;
        }
        if c == self.fls {
            return b;
        }
        if let Some(x) = self.is_not(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == self.tru && b == self.fls {
                return c;
            }
            if a == self.fls && b == self.tru {
                return self.not(c);
            }
            if a == self.tru {
                return self.bin(Op::Or, c, b);
            }
            if b == self.fls {
                return self.bin(Op::And, c, a);
            }
            if a == self.fls {
                let n = self.not(c);
                return self.bin(Op::And, n, b);
            }
            if b == self.tru {
                let n = self.not(c);
                return self.bin(Op::Or, n, a);
            }
        }
        // ite(c, ite(c, x, y), z)
        if let E::Ite(c2, x, _) = self.e(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let E::Ite(c2, _, y) = self.e(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        let s1 = self.join(self.sup(c), self.sup(a));
        let s = self.join(s1, self.sup(b));
        let r = self.intern(E::Ite(c, a, b), w, s);
        self.fold_table(r)
    }

    /// Nodes of width one over a single byte: fold when constant over all 256 values.
    fn fold_table(&mut self, r: Id) -> Id {
        let n = self.nodes[r as usize];
        if n.w == 1 {
            if let Sup::One(_) = n.sup {
                let b = self.bits(r);
                if b == [0; 4] {
                    return self.fls;
                }
                if b == [!0; 4] {
                    return self.tru;
                }
            }
        }
        r
    }

    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        self.un(Un::ZExt, a, w)
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        self.un(Un::Extract(lo as u8), a, w)
    }

    pub fn un(&mut self, u: Un, a: Id, w: u32) -> Id {
        if !matches!(self.e(a), E::Bin(..) | E::Ite(..)) {
            return self.un_of(u, a, w);
        }
        let key = (E::Un(u, a), w as u8);
        if let Some(&r) = self.rewritten.get(&key) {
            return r;
        }
        let r = self.un_of(u, a, w);
        self.rewritten.insert(key, r);
        r
    }

    fn un_of(&mut self, u: Un, a: Id, w: u32) -> Id {
        let wi = self.w(a);
        if let E::Const(c) = self.e(a) {
            return self.konst(w, eval_un(u, wi, w, c));
        }
        match u {
            Un::ZExt | Un::SExt if wi == w => return a,
            Un::ZExt => {
                if let E::Un(Un::ZExt, x) = self.e(a) {
                    return self.un(Un::ZExt, x, w);
                }
            }
            Un::SExt => {
                if let E::Un(Un::ZExt, x) = self.e(a) {
                    return self.un(Un::ZExt, x, w);
                }
                if let E::Un(Un::SExt, x) = self.e(a) {
                    return self.un(Un::SExt, x, w);
                }
            }
            Un::Extract(lo) => {
                let lo = lo as u32;
                if lo == 0 && w == wi {
                    return a;
                }
                match self.e(a) {
                    E::Un(Un::Extract(l2), x) => {
                        return self.un(Un::Extract((l2 as u32 + lo) as u8), x, w)
                    }
                    E::Un(Un::ZExt, x) => {
                        let wx = self.w(x);
                        if lo >= wx {
                            return self.konst(w, 0);
                        }
                        if lo + w <= wx {
                            return self.extract(x, lo, w);
                        }
                        if lo == 0 {
                            return self.un(Un::ZExt, x, w);
                        }
                        let y = self.extract(x, lo, wx - lo);
                        return self.un(Un::ZExt, y, w);
                    }
                    E::Un(Un::SExt, x) => {
                        let wx = self.w(x);
                        if lo + w <= wx {
                            return self.extract(x, lo, w);
                        }
                        if lo == 0 {
                            return self.un(Un::SExt, x, w);
                        }
                    }
                    E::Bin(Op::Concat, h, l) => {
                        let wl = self.w(l);
                        if lo >= wl {
                            return self.extract(h, lo - wl, w);
                        }
                        if lo + w <= wl {
                            return self.extract(l, lo, w);
                        }
                        let y = self.extract(l, lo, wl - lo);
                        let x = self.extract(h, 0, lo + w - wl);
                        return self.bin(Op::Concat, x, y);
                    }
                    E::Bin(o @ (Op::And | Op::Or | Op::Xor), x, y) => {
                        let x = self.extract(x, lo, w);
                        let y = self.extract(y, lo, w);
                        return self.bin(o, x, y);
                    }
                    E::Bin(o @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                        let x = self.extract(x, lo, w);
                        let y = self.extract(y, lo, w);
                        return self.bin(o, x, y);
                    }
                    E::Bin(Op::Shl, x, k) => {
                        if let E::Const(k) = self.e(k) {
                            let k = k as u32;
                            if lo >= k {
                                return self.extract(x, lo - k, w);
                            }
                            if lo + w <= k {
                                return self.konst(w, 0);
                            }
                        }
                    }
                    E::Bin(Op::LShr, x, k) => {
                        if let E::Const(k) = self.e(k) {
                            let k = k as u32;
                            if lo + k + w <= wi {
                                return self.extract(x, lo + k, w);
                            }
                            if lo + k >= wi {
                                return self.konst(w, 0);
                            }
                        }
                    }
                    E::Ite(c, x, y)
                        if self.as_const(x).is_some() || self.as_const(y).is_some() =>
                    {
                        let x = self.extract(x, lo, w);
                        let y = self.extract(y, lo, w);
                        return self.ite(c, x, y);
                    }
                    _ => {}
                }
            }
            // conversions of integers small enough to be exact as numbers
            Un::SIToF if self.size(a, 8) < wi && self.size(a, 8) <= exact(w) => {
                return self.un(Un::UIToF, a, w);
            }
            Un::FToUI | Un::FToSI => {
                if let E::Un(Un::UIToF, x) = self.e(a) {
                    let n = self.size(x, 8);
                    if n <= exact(wi) && (n < w || u == Un::FToUI && n == w) {
                        return self.resize(x, w);
                    }
                }
            }
            _ => {}
        }
        // push through ite with constant leaves
        if let E::Ite(c, x, y) = self.e(a) {
            if self.as_const(x).is_some() && self.as_const(y).is_some() {
                let x = self.un(u, x, w);
                let y = self.un(u, y, w);
                return self.ite(c, x, y);
            }
        }
        let s = self.sup(a);
        let r = self.intern(E::Un(u, a), w, s);
        self.fold_table(r)
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let (wa, wb) = (self.w(a), self.w(b));
        debug_assert!(wa == wb || op == Op::Concat, "{op:?} {wa} {wb}");
        if let (E::Const(x), E::Const(y)) = (self.e(a), self.e(b)) {
            let w = self.res_w(op, wa, wb);
            return self.konst(w, eval_bin(op, wa, wb, x, y));
        }
        // canonical order: constant on the right for commutative operations
        let (a, b) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                    (b, a)
                } else {
                    (a, b)
                }
            }
            _ => (a, b),
        };
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        let m = mask(wa);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), E::Bin(Op::Add, x, y)) = (cb, self.e(a)) {
                    if let Some(k2) = self.as_const(y) {
                        let s = self.konst(wa, k.wrapping_add(k2));
                        return self.bin(Op::Add, x, s);
                    }
                }
                // (x + c) + y -> (x + y) + c
                if cb.is_none() {
                    if let E::Bin(Op::Add, x, y) = self.e(a) {
                        if self.as_const(y).is_some() {
                            let t = self.bin(Op::Add, x, b);
                            return self.bin(Op::Add, t, y);
                        }
                    }
                    if let E::Bin(Op::Add, x, y) = self.e(b) {
                        if self.as_const(y).is_some() {
                            let t = self.bin(Op::Add, a, x);
                            return self.bin(Op::Add, t, y);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(wa, 0);
                }
                if let Some(k) = cb {
                    let n = self.konst(wa, k.wrapping_neg());
                    return self.bin(Op::Add, a, n);
                }
                if let E::Bin(Op::Add, x, y) = self.e(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    if self.as_const(y).is_some() {
                        let t = self.bin(Op::Sub, x, b);
                        return self.bin(Op::Add, t, y);
                    }
                }
                if let E::Bin(Op::Add, x, y) = self.e(b) {
                    if let Some(k) = self.as_const(y) {
                        let t = self.bin(Op::Sub, a, x);
                        let n = self.konst(wa, k.wrapping_neg());
                        return self.bin(Op::Add, t, n);
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(wa, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(wa, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(wa, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if wa == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.fls;
                    }
                }
                if let Some(k) = cb {
                    if let E::Bin(Op::And, x, y) = self.e(a) {
                        if let Some(k2) = self.as_const(y) {
                            let z = self.konst(wa, k & k2);
                            return self.bin(Op::And, x, z);
                        }
                    }
                    // low mask -> zext(extract)
                    if (k + 1).is_power_of_two() && wa > 1 {
                        let n = k.count_ones();
                        let x = self.extract(a, 0, n);
                        return self.zext(x, wa);
                    }
                    if let E::Un(Un::ZExt, x) = self.e(a) {
                        let wx = self.w(x);
                        let z = self.konst(wx, k);
                        let y = self.bin(Op::And, x, z);
                        return self.zext(y, wa);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if wa == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.tru;
                    }
                }
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(wa, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if wa == 1 && cb == Some(1) {
                    return self.not(a);
                }
                if let (Some(k), E::Bin(Op::Xor, x, y)) = (cb, self.e(a)) {
                    if let Some(k2) = self.as_const(y) {
                        let z = self.konst(wa, k ^ k2);
                        return self.bin(Op::Xor, x, z);
                    }
                }
            }
            Op::Shl | Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= wa as u128 {
                        return self.konst(wa, 0);
                    }
                    let k = k as u32;
                    if op == Op::LShr {
                        let x = self.extract(a, k, wa - k);
                        return self.zext(x, wa);
                    } else {
                        let x = self.extract(a, 0, wa - k);
                        let z = self.konst(k, 0);
                        return self.bin(Op::Concat, x, z);
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = if k >= wa as u128 { wa - 1 } else { k as u32 };
                    let x = self.extract(a, k, wa - k);
                    return self.un(Un::SExt, x, wa);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru;
                }
                if wa == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(k) = cb {
                    match self.e(a) {
                        E::Un(Un::ZExt, x) => {
                            let wx = self.w(x);
                            if k > mask(wx) {
                                return self.fls;
                            }
                            let z = self.konst(wx, k);
                            return self.bin(Op::Eq, x, z);
                        }
                        E::Un(Un::SExt, x) => {
                            let wx = self.w(x);
                            let t = k & mask(wx);
                            if (sext(t, wx) as u128) & m != k {
                                return self.fls;
                            }
                            let z = self.konst(wx, t);
                            return self.bin(Op::Eq, x, z);
                        }
                        E::Bin(Op::Concat, h, l) => {
                            let wl = self.w(l);
                            let wh = self.w(h);
                            let kl = self.konst(wl, k);
                            let kh = self.konst(wh, k >> wl);
                            let p = self.bin(Op::Eq, h, kh);
                            let q = self.bin(Op::Eq, l, kl);
                            return self.bin(Op::And, p, q);
                        }
                        E::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let z = self.konst(wa, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, x, z);
                            }
                        }
                        E::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let z = self.konst(wa, k ^ k2);
                                return self.bin(Op::Eq, x, z);
                            }
                        }
                        E::Ite(c, x, y) => {
                            let (cx, cy) = (self.as_const(x), self.as_const(y));
                            if cx.is_some() || cy.is_some() {
                                let p = self.bin(Op::Eq, x, b);
                                let q = self.bin(Op::Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                }
                if let (E::Un(Un::ZExt, x), E::Un(Un::ZExt, y)) = (self.e(a), self.e(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(Op::Eq, x, y);
                    }
                }
                if let (E::Bin(Op::Concat, h1, l1), E::Bin(Op::Concat, h2, l2)) =
                    (self.e(a), self.e(b))
                {
                    if self.w(l1) == self.w(l2) {
                        let p = self.bin(Op::Eq, h1, h2);
                        let q = self.bin(Op::Eq, l1, l2);
                        return self.bin(Op::And, p, q);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return self.fls;
                }
                if ca == Some(m) {
                    return self.fls;
                }
                if cb == Some(1) {
                    let z = self.konst(wa, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(r) = self.cmp_zext(op, a, b) {
                    return r;
                }
                if let Some(r) = self.cmp_ite(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.tru;
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(r) = self.cmp_zext(op, a, b) {
                    return r;
                }
                if let Some(r) = self.cmp_ite(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Sle { self.tru } else { self.fls };
                }
                // both operands known non-negative -> unsigned comparison
                if self.nonneg(a) && self.nonneg(b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if let Some(r) = self.cmp_ite(op, a, b) {
                    return r;
                }
            }
            Op::Concat => {
                let w = wa + wb;
                if ca == Some(0) {
                    return self.zext(b, w);
                }
                // concat(extract(x, hi), extract(x, lo)) of adjacent ranges
                if let (Some((x, l1)), Some((y, l2))) = (self.as_ext(a), self.as_ext(b)) {
                    if x == y && l1 == l2 + wb {
                        return self.extract(x, l2, w);
                    }
                }
                // concat(extract(x), concat(extract(x), rest))
                if let E::Bin(Op::Concat, h2, l2) = self.e(b) {
                    if let (Some((x, p)), Some((y, q))) = (self.as_ext(a), self.as_ext(h2)) {
                        if x == y && p == q + self.w(h2) {
                            let wh = wa + self.w(h2);
                            let h = self.extract(x, q, wh);
                            return self.bin(Op::Concat, h, l2);
                        }
                    }
                    // constants
                    if let (Some(k1), Some(k2)) = (ca, self.as_const(h2)) {
                        let wh2 = self.w(h2);
                        let h = self.konst(wa + wh2, (k1 << wh2) | k2);
                        return self.bin(Op::Concat, h, l2);
                    }
                }
                // concat(zext-like zero, ..) where b is zext
                if let E::Bin(Op::Concat, h1, l1) = self.e(a) {
                    // right-associate
                    let t = self.bin(Op::Concat, l1, b);
                    return self.bin(Op::Concat, h1, t);
                }
                if let E::Un(Un::ZExt, x) = self.e(a) {
                    let t = self.bin(Op::Concat, x, b);
                    return self.zext(t, w);
                }
                let _ = w;
            }
            _ => {}
        }
        if let Op::FEq | Op::FLt | Op::FLe = op {
            if let Some(r) = self.compare_integers(op, a, b) {
                return r;
            }
        }
        // push into ite with constant leaves when the other side is constant
        if let (Some(_), E::Ite(c, x, y)) = (cb, self.e(a)) {
            if self.as_const(x).is_some() && self.as_const(y).is_some() {
                let p = self.bin(op, x, b);
                let q = self.bin(op, y, b);
                return self.ite(c, p, q);
            }
        }
        let w = self.res_w(op, wa, wb);
        let s = self.join(self.sup(a), self.sup(b));
        let r = self.intern(E::Bin(op, a, b), w, s);
        self.fold_table(r)
    }

    /// A number of bits that the value fits in.
    fn size(&self, a: Id, depth: u32) -> u32 {
        let w = self.w(a);
        if depth == 0 {
            return w;
        }
        match self.e(a) {
            E::Const(c) => 128 - c.leading_zeros(),
            E::Un(Un::ZExt, x) => self.size(x, depth - 1),
            E::Un(Un::Extract(0), x) => self.size(x, depth - 1).min(w),
            E::Bin(Op::And, x, y) => self.size(x, depth - 1).min(self.size(y, depth - 1)),
            E::Bin(Op::Or | Op::Xor, x, y) => self.size(x, depth - 1).max(self.size(y, depth - 1)),
            E::Bin(Op::Add, x, y) => {
                (self.size(x, depth - 1).max(self.size(y, depth - 1)) + 1).min(w)
            }
            E::Bin(Op::LShr, x, y) => match self.as_const(y) {
                Some(k) if k < w as u128 => self.size(x, depth - 1).saturating_sub(k as u32),
                _ => w,
            },
            E::Bin(Op::Concat, x, y) => match self.size(x, depth - 1) {
                0 => self.size(y, depth - 1),
                n => n + self.w(y),
            },
            E::Ite(_, x, y) => self.size(x, depth - 1).max(self.size(y, depth - 1)),
            _ => w,
        }
    }
    fn resize(&mut self, a: Id, w: u32) -> Id {
        if w < self.w(a) {
            self.extract(a, 0, w)
        } else {
            self.zext(a, w)
        }
    }
    /// Comparisons of numbers made of integers small enough to be exact.
    fn compare_integers(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        let w = self.w(a);
        if w != 32 && w != 64 {
            return None;
        }
        let integer = |s: &Self, x: Id| match s.e(x) {
            E::Un(Un::UIToF, i) if s.size(i, 8) <= exact(w) => Some(Ok(i)),
            E::Const(c) => {
                let f = tof(w, c);
                (f >= 0.0 && f < 1u64.wrapping_shl(exact(w)) as f64 && f == (f as u64) as f64)
                    .then_some(Err(f as u64))
            }
            _ => None,
        };
        let (x, y) = (integer(self, a)?, integer(self, b)?);
        let mut sized = |x: Result<Id, u64>| match x {
            Ok(i) => self.resize(i, 64),
            Err(k) => self.konst(64, k as u128),
        };
        let (x, y) = (sized(x), sized(y));
        let op = match op {
            Op::FEq => Op::Eq,
            Op::FLt => Op::Ult,
            Op::FLe => Op::Ule,
            _ => return None,
        };
        Some(self.bin(op, x, y))
    }
    fn as_ext(&self, a: Id) -> Option<(Id, u32)> {
        match self.e(a) {
            E::Un(Un::Extract(lo), x) => Some((x, lo as u32)),
            E::Const(_) => None,
            _ => Some((a, 0)),
        }
    }
    fn nonneg(&self, a: Id) -> bool {
        match self.e(a) {
            E::Const(c) => (c >> (self.w(a) - 1)) & 1 == 0,
            E::Un(Un::ZExt, _) => true,
            _ => false,
        }
    }
    fn cmp_zext(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        match (self.e(a), self.e(b)) {
            (E::Un(Un::ZExt, x), E::Un(Un::ZExt, y)) if self.w(x) == self.w(y) => {
                Some(self.bin(op, x, y))
            }
            (E::Un(Un::ZExt, x), E::Const(k)) => {
                let wx = self.w(x);
                if k > mask(wx) {
                    return Some(self.tru);
                }
                let z = self.konst(wx, k);
                Some(self.bin(op, x, z))
            }
            (E::Const(k), E::Un(Un::ZExt, y)) => {
                let wy = self.w(y);
                if k > mask(wy) {
                    return Some(self.fls);
                }
                let z = self.konst(wy, k);
                Some(self.bin(op, z, y))
            }
            _ => None,
        }
    }
    fn cmp_ite(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        if self.as_const(b).is_some() {
            if let E::Ite(c, x, y) = self.e(a) {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        if self.as_const(a).is_some() {
            if let E::Ite(c, x, y) = self.e(b) {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let p = self.bin(op, a, x);
                    let q = self.bin(op, a, y);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        None
    }
    /// or of values with disjoint byte ranges -> concat
    fn or_concat(&mut self, a: Id, b: Id) -> Option<Id> {
        let w = self.w(a);
        let (mut x, mut y) = (a, b);
        for _ in 0..2 {
            // x = zext(lo part), y = concat(h, 0..)
            if let (E::Un(Un::ZExt, l), E::Bin(Op::Concat, h, z)) = (self.e(x), self.e(y)) {
                let (wl, wz) = (self.w(l), self.w(z));
                if self.as_const(z) == Some(0) && wl <= wz {
                    let l2 = self.zext(l, wz);
                    return Some(self.bin(Op::Concat, h, l2));
                }
            }
            // x = zext(lo part), y = zext(concat(h, 0))
            if let (E::Un(Un::ZExt, l), E::Un(Un::ZExt, y2)) = (self.e(x), self.e(y)) {
                if let E::Bin(Op::Concat, h, z) = self.e(y2) {
                    let (wl, wz) = (self.w(l), self.w(z));
                    if self.as_const(z) == Some(0) && wl <= wz {
                        let l2 = self.zext(l, wz);
                        let t = self.bin(Op::Concat, h, l2);
                        return Some(self.zext(t, w));
                    }
                }
            }
            std::mem::swap(&mut x, &mut y);
        }
        None
    }
    fn res_w(&self, op: Op, wa: u32, wb: u32) -> u32 {
        match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            Op::FLt | Op::FLe | Op::FEq | Op::FUno => 1,
            Op::Concat => wa + wb,
            _ => wa,
        }
    }

    // ---- evaluation ----
    pub fn eval(&mut self, i: Id, model: &[u8]) -> u128 {
        self.epoch += 1;
        self.eval_rec(i, model)
    }
    fn eval_rec(&mut self, i: Id, model: &[u8]) -> u128 {
        if let E::Const(c) = self.nodes[i as usize].e {
            return c;
        }
        let (ep, v) = self.memo[i as usize];
        if ep == self.epoch {
            return v;
        }
        let n = self.nodes[i as usize];
        let v = match n.e {
            E::Const(c) => c,
            E::Var(k) => model.get(k as usize).copied().unwrap_or(0) as u128,
            E::Bin(op, a, b) => {
                let x = self.eval_rec(a, model);
                // short-circuit for booleans
                if n.w == 1 && op == Op::And && x == 0 {
                    0
                } else if n.w == 1 && op == Op::Or && x == 1 {
                    1
                } else {
                    let y = self.eval_rec(b, model);
                    eval_bin(op, self.w(a), self.w(b), x, y)
                }
            }
            E::Un(u, a) => {
                let x = self.eval_rec(a, model);
                eval_un(u, self.w(a), n.w as u32, x)
            }
            E::Ite(c, a, b) => {
                if self.eval_rec(c, model) != 0 {
                    self.eval_rec(a, model)
                } else {
                    self.eval_rec(b, model)
                }
            }
        };
        self.memo[i as usize] = (self.epoch, v);
        v
    }

    /// The expression with every part that is constant on the given byte domains replaced by its value.
    pub fn under(&mut self, i: Id, dom: &[Bits], memo: &mut HashMap<Id, Id, FxBuild>) -> Id {
        let n = self.nodes[i as usize];
        match self.sup(i) {
            Sup::None => return i,
            Sup::One(v) => {
                let d = match dom.get(v as usize) {
                    Some(d) if *d != [!0; 4] => *d,
                    _ => return i,
                };
                if n.w > 64 {
                    return i;
                }
                if let Some(&r) = memo.get(&i) {
                    return r;
                }
                let r = if n.w == 1 {
                    let b = self.bits(i);
                    if (0..4).all(|k| d[k] & b[k] == 0) {
                        self.fls
                    } else if (0..4).all(|k| d[k] & !b[k] == 0) {
                        self.tru
                    } else {
                        i
                    }
                } else {
                    let t = self.table(i);
                    let mut it = (0..256usize).filter(|k| d[k / 64] >> (k % 64) & 1 == 1);
                    match it.next() {
                        Some(k0) if it.all(|k| t[k] == t[k0]) => self.konst(n.w as u32, t[k0] as u128),
                        _ => i,
                    }
                };
                memo.insert(i, r);
                return r;
            }
            Sup::Many(_) => {}
        }
        if let Some(&r) = memo.get(&i) {
            return r;
        }
        let r = match n.e {
            E::Const(_) | E::Var(_) => i,
            E::Bin(op, a, b) => {
                let x = self.under(a, dom, memo);
                let y = self.under(b, dom, memo);
                if (x, y) == (a, b) {
                    i
                } else {
                    self.bin(op, x, y)
                }
            }
            E::Un(u, a) => {
                let x = self.under(a, dom, memo);
                if x == a {
                    i
                } else {
                    self.un(u, x, n.w as u32)
                }
            }
            E::Ite(c, a, b) => {
                let p = self.under(c, dom, memo);
                if p == self.tru {
                    self.under(a, dom, memo)
                } else if p == self.fls {
                    self.under(b, dom, memo)
                } else {
                    let x = self.under(a, dom, memo);
                    let y = self.under(b, dom, memo);
                    if (p, x, y) == (c, a, b) {
                        i
                    } else {
                        self.ite(p, x, y)
                    }
                }
            }
        };
        memo.insert(i, r);
        r
    }

    /// Value table of an expression over a single byte (width <= 64).
    pub fn table(&mut self, i: Id) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&i) {
            return t.clone();
        }
        let n = self.nodes[i as usize];
        let mut r = [0u64; 256];
        match n.e {
            E::Const(c) => r = [c as u64; 256],
            E::Var(_) => {
                for k in 0..256 {
                    r[k] = k as u64
                }
            }
            E::Bin(op, a, b) if self.w(a) <= 64 && self.w(b) <= 64 => {
                let (x, y) = (self.table(a), self.table(b));
                let (wa, wb) = (self.w(a), self.w(b));
                match op {
                    Op::Eq => {
                        for k in 0..256 {
                            r[k] = (x[k] == y[k]) as u64
                        }
                    }
                    Op::Ult => {
                        for k in 0..256 {
                            r[k] = (x[k] < y[k]) as u64
                        }
                    }
                    Op::And => {
                        for k in 0..256 {
                            r[k] = x[k] & y[k]
                        }
                    }
                    Op::Or => {
                        for k in 0..256 {
                            r[k] = x[k] | y[k]
                        }
                    }
                    Op::Xor => {
                        for k in 0..256 {
                            r[k] = x[k] ^ y[k]
                        }
                    }
                    _ => {
                        for k in 0..256 {
                            r[k] = eval_bin(op, wa, wb, x[k] as u128, y[k] as u128) as u64
                        }
                    }
                }
            }
            E::Un(u, a) if self.w(a) <= 64 => {
                let x = self.table(a);
                let wa = self.w(a);
                for k in 0..256 {
                    r[k] = eval_un(u, wa, n.w as u32, x[k] as u128) as u64
                }
            }
            E::Ite(c, a, b) => {
                let (c, x, y) = (self.table(c), self.table(a), self.table(b));
                for k in 0..256 {
                    r[k] = if c[k] != 0 { x[k] } else { y[k] }
                }
            }
            _ => {
                // wide intermediate values
                let v = match n.sup {
                    Sup::One(v) => v as usize,
                    _ => unreachable!(),
                };
                let mut m = vec![0u8; v + 1];
                for k in 0..256 {
                    m[v] = k as u8;
                    r[k] = self.eval(i, &m) as u64;
                }
            }
        }
        let r = Rc::new(r);
        self.tabs.insert(i, r.clone());
        r
    }
    pub fn bits(&mut self, i: Id) -> Bits {
        if let Some(b) = self.bits.get(&i) {
            return *b;
        }
        let n = self.nodes[i as usize];
        let b = match n.e {
            E::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y)
                if n.w == 1
                    && matches!(self.sup(x), Sup::One(_))
                    && matches!(self.sup(y), Sup::One(_)) =>
            {
                let (p, q) = (self.bits(x), self.bits(y));
                let mut r = [0; 4];
                for k in 0..4 {
                    r[k] = match op {
                        Op::And => p[k] & q[k],
                        Op::Or => p[k] | q[k],
                        _ => p[k] ^ q[k],
                    }
                }
                r
            }
            _ => {
                let t = self.table(i);
                let mut r = [0u64; 4];
                for k in 0..256 {
                    if t[k] != 0 {
                        r[k / 64] |= 1 << (k % 64)
                    }
                }
                r
            }
        };
        self.bits.insert(i, b);
        b
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }

    pub fn show(&self, i: Id, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.e(i) {
            E::Const(c) => format!("{c:#x}:{}", self.w(i)),
            E::Var(v) => format!("b{v}"),
            E::Bin(o, a, b) => format!("({o:?} {} {})", self.show(a, d), self.show(b, d)),
            E::Un(u, a) => format!("({u:?}.{} {})", self.w(i), self.show(a, d)),
            E::Ite(c, a, b) => {
                format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d))
            }
        }
    }
}
