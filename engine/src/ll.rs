//! Reader for textual LLVM IR: types, globals, and lazily translated function bodies.
use std::collections::HashMap;
use std::sync::OnceLock;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Opaque,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    C(u64),
    W(u32, u128),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
    // float
    FFalse,
    FOeq,
    FOgt,
    FOge,
    FOlt,
    FOle,
    FOne,
    FOrd,
    FUeq,
    FUgt,
    FUge,
    FUlt,
    FUle,
    FUne,
    FUno,
    FTrue,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
    Same,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ord {
    NotAtomic,
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}

/// (byte offset, bit width) of the scalar leaves of a type.
pub type Leaves = Box<[(u32, u32)]>;

#[derive(Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Box<[(u32, Opd, u32)]>,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(u32),
    Dyn(Opd),
    Asm(String),
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    /// operand and leaf count
    pub args: Vec<(Opd, u32, Leaves)>,
    pub dst: u32,
    pub ret: Leaves,
    pub normal: Option<u32>, // edge index for invoke
    pub name: String,
}

#[derive(Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, align: u32, count: Opd },
    Load { dst: u32, ptr: Opd, w: u32, align: u32, ord: Ord },
    LoadM { dst: u32, ptr: Opd, leaves: Leaves, align: u32 },
    Store { ptr: Opd, val: Opd, w: u32, align: u32, ord: Ord },
    StoreM { ptr: Opd, val: Opd, leaves: Leaves, align: u32 },
    GepC { dst: u32, ptr: Opd, off: u64 },
    Gep { dst: u32, ptr: Opd, off: u64, idx: Box<[(Opd, u32, u64)]> },
    Bin { op: BinOp, w: u32, n: u32, dst: u32, a: Opd, b: Opd },
    Cmp { p: Pred, w: u32, n: u32, dst: u32, a: Opd, b: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, n: u32, veccond: bool, leaves: Leaves },
    Cast { op: Cast, dst: u32, a: Opd, wi: u32, wo: u32, n: u32 },
    /// reinterpretation of vector lanes / integers (bit widths per lane)
    Bitcast { dst: u32, a: Opd, wi: u32, ni: u32, wo: u32, no: u32 },
    FNeg { dst: u32, a: Opd, w: u32, n: u32 },
    Move { dst: u32, a: Opd, from: u32, n: u32 },
    /// dst = agg with n leaves at `at` replaced
    InsertV { dst: u32, agg: Opd, total: u32, at: u32, val: Opd, n: u32 },
    ExtractE { dst: u32, v: Opd, n: u32, idx: Opd, w: u32 },
    InsertE { dst: u32, v: Opd, n: u32, val: Opd, idx: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, mask: Box<[i32]> },
    Br { e: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, def: u32, cases: Box<[(u64, u32)]> },
    Call(Box<CallI>),
    Ret { v: Opd, n: u32 },
    Unreachable,
    Rmw { op: RmwOp, dst: u32, ptr: Opd, v: Opd, w: u32, ord: Ord },
    CmpXchg { dst: u32, ptr: Opd, cmp: Opd, new: Opd, w: u32, ord: Ord, ford: Ord, weak: bool },
    Fence { ord: Ord },
    Landing,
    Resume,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func {
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub params: Vec<(u32, u32)>, // reg base, leaves
    pub consts: Vec<K>,
    pub ret: u32,
}

pub struct FnDecl {
    pub name: String,
    pub head: String,
    pub body: (usize, usize), // line range in Module.lines; empty = declaration
    pub func: OnceLock<Func>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub init: Vec<u8>,
    pub tls: bool,
    pub defined: bool,
}

pub struct Module {
    pub text: &'static str,
    pub lines: Vec<(u32, u32)>,
    pub types: std::sync::Mutex<Types>,
    pub fns: Vec<FnDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

#[derive(Default, Clone)]
pub struct Types {
    pub v: Vec<Ty>,
    pub m: HashMap<Ty, TyId>,
    pub named: HashMap<String, String>,
}

impl Types {
    pub fn id(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.m.get(&t) {
            return i;
        }
        let i = self.v.len() as u32;
        self.v.push(t.clone());
        self.m.insert(t, i);
        i
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.v[t as usize] {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                if b <= 8 {
                    let s = b.next_power_of_two();
                    (s, s)
                } else {
                    (b.div_ceil(16) * 16, 16)
                }
            }
            Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::Array(n, e) => {
                let (s, a) = self.size_align(*e);
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let s = (self.bits(*e) as u64 * *n as u64).div_ceil(8).next_power_of_two();
                (s, s)
            }
            Ty::Struct(f, packed) => {
                let (mut o, mut al) = (0u64, 1);
                for &x in f {
                    let (s, a) = self.size_align(x);
                    let a = if *packed { 1 } else { a };
                    o = o.div_ceil(a) * a;
                    o += s;
                    al = al.max(a);
                }
                (o.div_ceil(al) * al, al)
            }
            _ => (0, 1),
        }
    }
    pub fn field(&self, f: &[TyId], packed: bool, k: usize) -> u64 {
        let mut o = 0u64;
        for (i, &x) in f.iter().enumerate() {
            let (s, a) = self.size_align(x);
            let a = if packed { 1 } else { a };
            o = o.div_ceil(a) * a;
            if i == k {
                return o;
            }
            o += s;
        }
        o
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.v[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn leaves(&self, t: TyId) -> Vec<(u32, u32)> {
        let mut r = vec![];
        self.leaves_at(t, 0, &mut r);
        r
    }
    fn leaves_at(&self, t: TyId, o: u64, r: &mut Vec<(u32, u32)>) {
        match &self.v[t as usize] {
            Ty::Array(n, e) => {
                let (s, _) = self.size_align(*e);
                for k in 0..*n {
                    self.leaves_at(*e, o + k * s, r)
                }
            }
            Ty::Vec(n, e) => {
                let b = self.bits(*e);
                for k in 0..*n {
                    r.push(((o + (k as u64 * b as u64) / 8) as u32, b))
                }
            }
            Ty::Struct(f, p) => {
                for (k, &x) in f.iter().enumerate() {
                    self.leaves_at(x, o + self.field(f, *p, k), r)
                }
            }
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => {}
            _ => r.push((o as u32, self.bits(t))),
        }
    }
    pub fn nleaves(&self, t: TyId) -> u32 {
        match &self.v[t as usize] {
            Ty::Array(n, e) => *n as u32 * self.nleaves(*e),
            Ty::Vec(n, _) => *n,
            Ty::Struct(f, _) => f.iter().map(|&x| self.nleaves(x)).sum(),
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => 0,
            _ => 1,
        }
    }
    /// leaf index and type of the member selected by an index path
    pub fn member(&self, mut t: TyId, path: &[u64]) -> (u32, TyId) {
        let mut at = 0;
        for &i in path {
            match &self.v[t as usize] {
                Ty::Struct(f, _) => {
                    for &x in &f[..i as usize] {
                        at += self.nleaves(x)
                    }
                    t = f[i as usize];
                }
                Ty::Array(_, e) => {
                    at += i as u32 * self.nleaves(*e);
                    t = *e;
                }
                _ => panic!("member of scalar"),
            }
        }
        (at, t)
    }
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    Str(&'a str), // raw contents of c"..." or "..."
    Meta(&'a str),
    Attr,
    P(u8),
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut r = Vec::with_capacity(32);
    let isid = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let (st, en);
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && isid(b[j]) {
                        j += 1
                    }
                    en = j;
                    i = j;
                }
                r.push(if c == b'%' { Tok::Local(&s[st..en]) } else { Tok::Global(&s[st..en]) });
            }
            b'!' => {
                let st = i;
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    i += 1;
                } else {
                    while i < b.len() && isid(b[i]) {
                        i += 1
                    }
                }
                r.push(Tok::Meta(&s[st..i]));
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                r.push(Tok::Attr);
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                r.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                r.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'.'
                        || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e')))
                {
                    i += 1
                }
                r.push(Tok::Num(&s[st..i]));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && (isid(b[i])) {
                    i += 1
                }
                r.push(Tok::Word(&s[st..i]));
            }
            _ => {
                r.push(Tok::P(c));
                i += 1
            }
        }
    }
    r
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
            r.push(h);
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            r.push(b'\\');
            i += 2;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

pub const OBJ_SHIFT: u32 = 32;
pub fn obj_base(id: u32, align: u64) -> u64 {
    // aligned to exactly `align` (not to twice as much)
    ((id as u64) << OBJ_SHIFT) + align.max(1)
}

pub struct Cur<'a, 't> {
    pub t: &'t [Tok<'a>],
    pub i: usize,
}

impl<'a, 't> Cur<'a, 't> {
    pub fn peek(&self) -> Option<&'t Tok<'a>> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&'t Tok<'a>> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> &'t Tok<'a> {
        let t = &self.t[self.i];
        self.i += 1;
        t
    }
    fn is(&self, p: u8) -> bool {
        self.peek() == Some(&Tok::P(p))
    }
    fn eat(&mut self, p: u8) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, p: u8) {
        if !self.eat(p) {
            panic!("expected {:?} at {:?} in {:?}", p as char, self.peek(), &self.t[..self.i.min(self.t.len())])
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == Some(&Tok::Word(w)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn word(&mut self) -> &'a str {
        match self.next() {
            Tok::Word(w) => w,
            t => panic!("expected word, got {t:?}"),
        }
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Word(w) => {
            matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "x86_fp80" | "fp128" | "bfloat")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
        Tok::Local(_) => true,
        _ => false,
    }
}

pub fn parse_type(c: &mut Cur, ts: &mut Types) -> TyId {
    match c.next() {
        Tok::Word(w) => match *w {
            "ptr" => {
                if c.eatw("addrspace") {
                    c.skip_paren();
                }
                ts.id(Ty::Ptr)
            }
            "void" => ts.id(Ty::Void),
            "float" => ts.id(Ty::F32),
            "double" => ts.id(Ty::F64),
            "label" => ts.id(Ty::Label),
            "metadata" => ts.id(Ty::Meta),
            "x86_fp80" => ts.id(Ty::Int(80)),
            "fp128" => ts.id(Ty::Int(128)),
            "half" | "bfloat" => ts.id(Ty::Int(16)),
            w if w.starts_with('i') => ts.id(Ty::Int(w[1..].parse().unwrap())),
            w => panic!("type {w}"),
        },
        Tok::P(b'{') => {
            let f = fields(c, ts);
            ts.id(Ty::Struct(f, false))
        }
        Tok::P(b'[') => {
            let n: u64 = num(c).parse().unwrap();
            assert_eq!(c.word(), "x");
            let e = parse_type(c, ts);
            c.expect(b']');
            ts.id(Ty::Array(n, e))
        }
        Tok::P(b'<') => {
            if c.eat(b'{') {
                let f = fields(c, ts);
                c.expect(b'>');
                ts.id(Ty::Struct(f, true))
            } else {
                let n: u32 = num(c).parse().unwrap();
                assert_eq!(c.word(), "x");
                let e = parse_type(c, ts);
                c.expect(b'>');
                ts.id(Ty::Vec(n, e))
            }
        }
        Tok::Local(n) => {
            let def = ts.named.get(*n).cloned();
            match def {
                Some(d) if d != "opaque" => {
                    let t = lex(&d);
                    parse_type(&mut Cur { t: &t, i: 0 }, ts)
                }
                _ => ts.id(Ty::Opaque),
            }
        }
        t => panic!("type at {t:?}"),
    }
}
fn num<'a>(c: &mut Cur<'a, '_>) -> &'a str {
    match c.next() {
        Tok::Num(n) => n,
        t => panic!("number expected: {t:?}"),
    }
}
fn fields(c: &mut Cur, ts: &mut Types) -> Vec<TyId> {
    let mut f = vec![];
    if c.eat(b'}') {
        return f;
    }
    loop {
        f.push(parse_type(c, ts));
        if c.eat(b'}') {
            return f;
        }
        c.expect(b',');
    }
}

fn parse_int(s: &str, w: u32) -> u128 {
    let m = crate::expr::mask(w);
    if let Some(h) = s.strip_prefix("u0x") {
        return u128::from_str_radix(h, 16).unwrap() & m;
    }
    if let Some(h) = s.strip_prefix("s0x") {
        return u128::from_str_radix(h, 16).unwrap() & m;
    }
    if s.starts_with('-') {
        (s.parse::<i128>().unwrap() as u128) & m
    } else {
        s.parse::<u128>().unwrap() & m
    }
}

/// A constant or a reference to a local value, as leaves.
enum Val {
    Local(String),
    Splat(u64), // all leaves equal
    List(Vec<K>),
}

impl Module {
    pub fn fn_addr(&self, i: u32) -> u64 {
        ((1 + self.globals.len() as u64 + i as u64) << OBJ_SHIFT) + 16
    }
    pub fn global_addr(&self, i: u32) -> u64 {
        obj_base(1 + i, self.globals[i as usize].align)
    }
    pub fn first_free(&self) -> u32 {
        1 + self.globals.len() as u32 + self.fns.len() as u32
    }
    pub fn addr_fn(&self, a: u64) -> Option<u32> {
        let id = a >> OBJ_SHIFT;
        let lo = 1 + self.globals.len() as u64;
        if id >= lo && id < lo + self.fns.len() as u64 && a & 0xffff_ffff == 16 {
            Some((id - lo) as u32)
        } else {
            None
        }
    }
    pub fn symbol(&self, n: &str) -> u64 {
        if let Some(&i) = self.gmap.get(n) {
            return self.global_addr(i);
        }
        if let Some(&i) = self.fmap.get(n) {
            return self.fn_addr(i);
        }
        if let Some(t) = self.aliases.get(n) {
            return self.symbol(t);
        }
        panic!("unknown symbol @{n}")
    }

    fn value(&self, c: &mut Cur, ts: &mut Types, t: TyId) -> Val {
        let ty = ts.v[t as usize].clone();
        match c.next() {
            Tok::Local(n) => Val::Local(n.to_string()),
            Tok::Global(n) => Val::Splat(self.symbol(n)),
            Tok::Num(n) => match ty {
                Ty::Int(w) => {
                    let v = parse_int(n, w);
                    if w <= 64 {
                        Val::Splat(v as u64)
                    } else {
                        Val::List(vec![K::W(w, v)])
                    }
                }
                Ty::F64 => {
                    if let Some(v) = special_float(n) {
                        Val::Splat(v.to_bits())
                    } else if let Some(h) = n.strip_prefix("0x") {
                        Val::Splat(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        Val::Splat(n.parse::<f64>().unwrap().to_bits())
                    }
                }
                Ty::F32 => {
                    if let Some(v) = special_float(n) {
                        Val::Splat((v as f32).to_bits() as u64)
                    } else if let Some(h) = n.strip_prefix("0x") {
                        let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                        Val::Splat((d as f32).to_bits() as u64)
                    } else {
                        Val::Splat(n.parse::<f32>().unwrap().to_bits() as u64)
                    }
                }
                _ => panic!("number of type {ty:?}"),
            },
            Tok::Word(w) => match *w {
                "true" => Val::Splat(1),
                "false" => Val::Splat(0),
                "null" | "none" => Val::Splat(0),
                "undef" | "poison" | "zeroinitializer" => {
                    let l = ts.leaves(t);
                    if l.iter().any(|x| x.1 > 64) {
                        Val::List(
                            l.iter()
                                .map(|x| if x.1 > 64 { K::W(x.1, 0) } else { K::C(0) })
                                .collect(),
                        )
                    } else {
                        Val::Splat(0)
                    }
                }
                h if h.starts_with("f0x") => {
                    // the bits of a floating-point constant, in newer notation
                    Val::Splat(u64::from_str_radix(&h[3..], 16).unwrap())
                }
                "splat" => {
                    c.expect(b'(');
                    let e = parse_type(c, ts);
                    let v = self.value(c, ts, e);
                    c.expect(b')');
                    v
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "zext"
                | "ptrtoaddr" => {
                    let w = *w;
                    c.expect(b'(');
                    let e = parse_type(c, ts);
                    let v = self.scalar(c, ts, e);
                    assert_eq!(c.word(), "to");
                    let o = parse_type(c, ts);
                    c.expect(b')');
                    if w == "trunc" {
                        Val::Splat(v & crate::expr::mask(ts.bits(o)) as u64)
                    } else {
                        Val::Splat(v)
                    }
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" => {
                    let w = *w;
                    while matches!(c.peek(), Some(Tok::Word("nuw" | "nsw"))) {
                        c.i += 1
                    }
                    c.expect(b'(');
                    let e = parse_type(c, ts);
                    let x = self.scalar(c, ts, e);
                    c.expect(b',');
                    let e2 = parse_type(c, ts);
                    let y = self.scalar(c, ts, e2);
                    c.expect(b')');
                    let m = crate::expr::mask(ts.bits(e)) as u64;
                    Val::Splat(
                        (match w {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            "xor" => x ^ y,
                            "and" => x & y,
                            "or" => x | y,
                            "shl" => x << y,
                            _ => x.wrapping_mul(y),
                        }) & m,
                    )
                }
                "getelementptr" => {
                    while !c.is(b'(') {
                        c.i += 1;
                        if matches!(c.t[c.i - 1], Tok::Word("inrange")) {
                            c.skip_paren()
                        }
                    }
                    c.expect(b'(');
                    let e = parse_type(c, ts);
                    c.expect(b',');
                    let pt = parse_type(c, ts);
                    let p = self.scalar(c, ts, pt);
                    let mut off = 0u64;
                    let mut cur = e;
                    let mut first = true;
                    while c.eat(b',') {
                        let it = parse_type(c, ts);
                        let v = self.scalar(c, ts, it);
                        let v = crate::expr::sext(v as u128, ts.bits(it)) as i64 as u64;
                        off = off.wrapping_add(gep_step(ts, &mut cur, v, first));
                        first = false;
                    }
                    c.expect(b')');
                    Val::Splat(p.wrapping_add(off))
                }
                w => panic!("constant {w}"),
            },
            Tok::Str(s) => Val::List(unescape(s).into_iter().map(|b| K::C(b as u64)).collect()),
            Tok::P(b'<') => {
                let packed = c.eat(b'{');
                let mut l = vec![];
                let close = if packed { b'}' } else { b'>' };
                if !c.eat(close) {
                    loop {
                        let e = parse_type(c, ts);
                        self.push(c, ts, e, &mut l);
                        if c.eat(close) {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                if packed {
                    c.expect(b'>');
                }
                Val::List(l)
            }
            Tok::P(o @ (b'{' | b'[')) => {
                let close = if *o == b'{' { b'}' } else { b']' };
                let mut l = vec![];
                if !c.eat(close) {
                    loop {
                        let e = parse_type(c, ts);
                        self.push(c, ts, e, &mut l);
                        if c.eat(close) {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                Val::List(l)
            }
            t => panic!("value at {t:?}: {:?}", c.t),
        }
    }
    fn push(&self, c: &mut Cur, ts: &mut Types, t: TyId, l: &mut Vec<K>) {
        match self.value(c, ts, t) {
            Val::Splat(v) => {
                for _ in 0..ts.nleaves(t) {
                    l.push(K::C(v))
                }
            }
            Val::List(x) => l.extend(x),
            Val::Local(_) => panic!("local in constant"),
        }
    }
    fn scalar(&self, c: &mut Cur, ts: &mut Types, t: TyId) -> u64 {
        match self.value(c, ts, t) {
            Val::Splat(v) => v,
            Val::List(l) => match l[0] {
                K::C(v) => v,
                K::W(_, v) => v as u64,
            },
            Val::Local(_) => panic!("local in constant"),
        }
    }

    pub fn load(text: String) -> &'static Module {
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut lines = vec![];
        let mut st = 0usize;
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push((st as u32, i as u32));
                st = i + 1;
            }
        }
        let line = |i: usize| -> &'static str { &text[lines[i].0 as usize..lines[i].1 as usize] };
        let mut m = Module {
            text,
            lines: vec![],
            types: Default::default(),
            fns: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut ts = Types::default();
        let mut glines: Vec<usize> = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = line(i);
            if l.starts_with("define ") || l.starts_with("declare ") {
                let t = lex_head(l);
                let name = t;
                let st = i;
                let mut en = i;
                if l.starts_with("define ") {
                    while line(en) != "}" {
                        en += 1
                    }
                }
                m.fmap.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl {
                    name,
                    head: l.to_string(),
                    body: if en > st { (st + 1, en) } else { (0, 0) },
                    func: OnceLock::new(),
                });
                i = en + 1;
                continue;
            }
            if l.starts_with('@') {
                let name = global_name(l);
                let rest = l[name.1..].trim_start_matches(" = ");
                // alias
                if rest.split(' ').take(6).any(|w| w == "alias") && !rest.contains(" constant ") && !rest.contains(" global ") {
                    let tk = lex(rest);
                    if let Some(Tok::Global(g)) = tk.iter().rev().find(|t| matches!(t, Tok::Global(_))) {
                        m.aliases.insert(name.0, g.to_string());
                    }
                } else {
                    m.gmap.insert(name.0.clone(), glines.len() as u32);
                    m.globals.push(Global {
                        name: name.0,
                        size: 0,
                        align: 1,
                        constant: false,
                        init: vec![],
                        tls: false,
                        defined: true,
                    });
                    glines.push(i);
                }
            } else if l.starts_with('%') {
                let tk: Vec<&str> = l.splitn(2, " = type ").collect();
                if tk.len() == 2 {
                    ts.named.insert(tk[0][1..].trim_matches('"').to_string(), tk[1].to_string());
                }
            }
            i += 1;
        }
        // first pass over globals: sizes and alignments
        let mut toks_at = vec![];
        for (k, &li) in glines.iter().enumerate() {
            let l = line(li);
            let tk = lex(l);
            let mut c = Cur { t: &tk, i: 0 };
            c.next(); // name
            c.expect(b'=');
            let mut constant = false;
            let mut tls = false;
            let mut ext = false;
            loop {
                match c.next() {
                    Tok::Word("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::Word("global") => break,
                    Tok::Word("thread_local") => {
                        tls = true;
                        if c.is(b'(') {
                            c.skip_paren()
                        }
                    }
                    Tok::Word("external" | "extern_weak") => ext = true,
                    Tok::P(b'(') => {
                        c.i -= 1;
                        c.skip_paren()
                    }
                    _ => {}
                }
            }
            let t = parse_type(&mut c, &mut ts);
            let (s, a) = ts.size_align(t);
            let mut align = a;
            // ", align N"
            for w in 0..tk.len() {
                if tk[w] == Tok::Word("align") {
                    if let Some(Tok::Num(n)) = tk.get(w + 1) {
                        align = n.parse().unwrap();
                    }
                }
            }
            let g = &mut m.globals[k];
            g.size = s;
            g.align = align;
            g.constant = constant;
            g.tls = tls;
            g.defined = !ext;
            toks_at.push((t, c.i));
        }
        for (k, &li) in glines.iter().enumerate() {
            let (t, at) = toks_at[k];
            let size = m.globals[k].size as usize;
            let mut init = vec![0u8; size];
            if m.globals[k].defined {
                let l = line(li);
                let tk = lex(l);
                let mut c = Cur { t: &tk, i: at };
                let v = m.value(&mut c, &mut ts, t);
                let lv = ts.leaves(t);
                let put = |o: u32, w: u32, v: u128, init: &mut Vec<u8>| {
                    for b in 0..w.div_ceil(8) {
                        init[(o + b) as usize] = (v >> (8 * b)) as u8
                    }
                };
                match v {
                    Val::Splat(0) => {}
                    Val::Splat(x) => {
                        for (o, w) in lv {
                            put(o, w, x as u128, &mut init)
                        }
                    }
                    Val::List(x) => {
                        assert_eq!(x.len(), lv.len(), "{}", l);
                        for (x, (o, w)) in x.iter().zip(lv) {
                            put(
                                o,
                                w,
                                match x {
                                    K::C(v) => *v as u128,
                                    K::W(_, v) => *v,
                                },
                                &mut init,
                            )
                        }
                    }
                    Val::Local(_) => unreachable!(),
                }
            }
            m.globals[k].init = init;
        }
        m.lines = lines;
        m.types = std::sync::Mutex::new(ts);
        Box::leak(Box::new(m))
    }

    fn line(&self, i: usize) -> &'static str {
        &self.text[self.lines[i].0 as usize..self.lines[i].1 as usize]
    }

    pub fn func(&'static self, i: u32) -> Option<&'static Func> {
        let d = &self.fns[i as usize];
        if d.body == (0, 0) {
            return None;
        }
        Some(d.func.get_or_init(|| {
            let mut ts = self.types.lock().unwrap();
            FnParser::new(self, &mut ts).parse(d)
        }))
    }
}

fn gep_step(ts: &Types, cur: &mut TyId, v: u64, first: bool) -> u64 {
    if first {
        return ts.size_align(*cur).0.wrapping_mul(v);
    }
    match ts.v[*cur as usize].clone() {
        Ty::Array(_, e) => {
            *cur = e;
            ts.size_align(e).0.wrapping_mul(v)
        }
        Ty::Vec(_, e) => {
            *cur = e;
            (ts.bits(e) as u64 / 8).wrapping_mul(v)
        }
        Ty::Struct(f, p) => {
            let o = ts.field(&f, p, v as usize);
            *cur = f[v as usize];
            o
        }
        t => panic!("gep into {t:?}"),
    }
}

fn global_name(l: &str) -> (String, usize) {
    let b = l.as_bytes();
    if b[1] == b'"' {
        let e = l[2..].find('"').unwrap() + 2;
        (l[2..e].to_string(), e + 1)
    } else {
        let e = l.find(' ').unwrap();
        (l[1..e].to_string(), e)
    }
}
fn lex_head(l: &str) -> String {
    let p = l.find('@').unwrap();
    let b = l.as_bytes();
    if b[p + 1] == b'"' {
        let e = l[p + 2..].find('"').unwrap() + p + 2;
        l[p + 2..e].to_string()
    } else {
        let e = l[p..].find('(').unwrap() + p;
        l[p + 1..e].to_string()
    }
}

struct FnParser<'m> {
    m: &'static Module,
    ts: &'m mut Types,
    regs: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<K>,
    code: Vec<Inst>,
    edges: Vec<(u32, String, String)>, // index, from, to
    block: String,
    blocks: HashMap<String, u32>,
    phis: HashMap<String, Vec<(u32, u32, Vec<(Opd, String)>)>>,
}

impl<'m> FnParser<'m> {
    fn new(m: &'static Module, ts: &'m mut Types) -> Self {
        FnParser {
            m,
            ts,
            regs: HashMap::new(),
            nregs: 0,
            consts: vec![],
            code: vec![],
            edges: vec![],
            block: String::new(),
            blocks: HashMap::new(),
            phis: HashMap::new(),
        }
    }
    fn reg(&mut self, n: &str, leaves: u32) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += leaves.max(1);
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, c: &mut Cur, t: TyId) -> Opd {
        match self.m.value(c, self.ts, t) {
            Val::Local(n) => {
                let k = self.ts.nleaves(t);
                Opd::R(self.reg(&n, k))
            }
            Val::Splat(v) => Opd::C(v),
            Val::List(l) => {
                let at = self.consts.len() as u32;
                self.consts.extend(l);
                Opd::K(at)
            }
        }
    }
    fn typed(&mut self, c: &mut Cur) -> (TyId, Opd) {
        let t = parse_type(c, self.ts);
        let o = self.opd(c, t);
        (t, o)
    }
    fn edge(&mut self, to: &str) -> u32 {
        let i = self.edges.len() as u32;
        self.edges.push((i, self.block.clone(), to.to_string()));
        i
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        assert_eq!(c.word(), "label");
        match c.next() {
            Tok::Local(n) => self.edge(n),
            t => panic!("label {t:?}"),
        }
    }

    fn parse(mut self, d: &FnDecl) -> Func {
        // header
        let head: &str = &d.head;
        let tk = lex(head);
        let mut c = Cur { t: &tk, i: 1 };
        while !is_type_start(c.peek().unwrap()) {
            c.i += 1;
            if c.is(b'(') {
                c.skip_paren()
            }
            if matches!(c.t[c.i - 1], Tok::Word("align")) && matches!(c.peek(), Some(Tok::Num(_))) {
                c.i += 1
            }
        }
        let rt = parse_type(&mut c, self.ts);
        let ret = self.ts.nleaves(rt);
        c.next(); // name
        c.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.is(b'.') || matches!(c.peek(), Some(Tok::Word("..."))) {
                    while !c.eat(b')') {
                        c.i += 1
                    }
                    break;
                }
                let t = parse_type(&mut c, self.ts);
                // attributes
                loop {
                    match c.peek() {
                        Some(Tok::Local(_)) => break,
                        Some(Tok::P(b'(')) => c.skip_paren(),
                        _ => c.i += 1,
                    }
                }
                let n = match c.next() {
                    Tok::Local(n) => n.to_string(),
                    _ => unreachable!(),
                };
                if n.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed += 1;
                }
                let k = self.ts.nleaves(t);
                let r = self.reg(&n, k);
                params.push((r, k));
                if c.eat(b')') {
                    break;
                }
                c.expect(b',');
            }
        }
        // body
        let (s, e) = d.body;
        let mut i = s;
        self.block = format!("{unnamed}");
        let mut first = true;
        let mut joined;
        while i < e {
            let l = self.m.line(i);
            i += 1;
            if l.is_empty() {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = if let Some(q) = l.strip_prefix('"') {
                    q[..q.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').unwrap()].to_string()
                };
                self.block = name.clone();
                self.blocks.insert(name, self.code.len() as u32);
                first = false;
                continue;
            }
            if first {
                let b = self.block.clone();
                self.blocks.insert(b, 0);
                first = false;
            }
            let mut text: &str = l;
            // join multi-line instructions
            let body = l.trim_start();
            if body.starts_with("switch ") {
                joined = l.to_string();
                if !l.contains(']') {
                    while i < e {
                        let n = self.m.line(i);
                        i += 1;
                        joined.push(' ');
                        joined.push_str(n);
                        if n.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
                text = &joined;
            } else if l.contains("invoke ") && self.m.line(i).trim_start().starts_with("to label") {
                joined = l.to_string();
                joined.push(' ');
                joined.push_str(self.m.line(i));
                i += 1;
                text = &joined;
            } else if l.contains("= landingpad ") {
                while i < e && self.m.line(i).starts_with("          ") {
                    i += 1
                }
            }
            let tk = lex(text);
            self.inst(&tk, text);
        }
        // edges
        let mut edges = vec![];
        for (_, from, to) in &self.edges {
            let target = *self.blocks.get(to).unwrap_or_else(|| panic!("block {to} in {}", d.name));
            let mut moves = vec![];
            if let Some(ps) = self.phis.get(to) {
                for (dst, n, inc) in ps {
                    let o = inc
                        .iter()
                        .find(|x| &x.1 == from)
                        .unwrap_or_else(|| panic!("phi edge {from}->{to} in {}", d.name))
                        .0;
                    moves.push((*dst, o, *n));
                }
            }
            edges.push(Edge { target, moves: moves.into() });
        }
        Func { code: self.code, edges, nregs: self.nregs, params, consts: self.consts, ret }
    }

    fn ord(w: &str) -> Option<Ord> {
        Some(match w {
            "unordered" | "monotonic" => Ord::Relaxed,
            "acquire" => Ord::Acquire,
            "release" => Ord::Release,
            "acq_rel" => Ord::AcqRel,
            "seq_cst" => Ord::SeqCst,
            _ => return None,
        })
    }
    fn find_align(c: &Cur) -> u32 {
        for k in c.i..c.t.len() {
            if c.t[k] == Tok::Word("align") {
                if let Some(Tok::Num(n)) = c.t.get(k + 1) {
                    return n.parse().unwrap();
                }
            }
        }
        1
    }
    fn find_ord(c: &Cur) -> Ord {
        for k in c.i..c.t.len() {
            if let Tok::Word(w) = c.t[k] {
                if let Some(o) = Self::ord(w) {
                    return o;
                }
            }
        }
        Ord::NotAtomic
    }

    fn inst(&mut self, tk: &[Tok], text: &str) {
        let mut c = Cur { t: tk, i: 0 };
        let mut dst_name: Option<&str> = None;
        if let (Some(Tok::Local(n)), Some(Tok::P(b'='))) = (c.peek(), c.peek_at(1)) {
            dst_name = Some(n);
            c.i = 2;
        }
        let op = c.word();
        let flags: &[&str] = &[
            "nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf",
            "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "inalloca", "swifterror",
        ];
        let mut atomic = false;
        macro_rules! skipflags {
            () => {
                while let Some(Tok::Word(w)) = c.peek() {
                    if flags.contains(w) {
                        if *w == "atomic" {
                            atomic = true
                        }
                        c.i += 1
                    } else if *w == "inrange" {
                        c.i += 1;
                        c.skip_paren();
                    } else {
                        break;
                    }
                }
            };
        }
        let binop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = binop {
            skipflags!();
            let (t, x) = self.typed(&mut c);
            c.expect(b',');
            let y = self.opd(&mut c, t);
            let l = self.ts.leaves(t);
            let dst = self.reg(dst_name.unwrap(), l.len() as u32);
            self.code.push(Inst::Bin { op: b, w: l[0].1, n: l.len() as u32, dst, a: x, b: y });
            return;
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(Cast::Same),
            _ => None,
        };
        if let Some(k) = cast {
            skipflags!();
            let (t, x) = self.typed(&mut c);
            assert_eq!(c.word(), "to");
            let o = parse_type(&mut c, self.ts);
            let li = self.ts.leaves(t);
            let lo = self.ts.leaves(o);
            let dst = self.reg(dst_name.unwrap(), lo.len() as u32);
            let (wi, wo) = (li[0].1, lo[0].1);
            let k = if k == Cast::Same {
                if wi < wo {
                    Cast::ZExt
                } else if wi > wo {
                    Cast::Trunc
                } else {
                    Cast::Same
                }
            } else {
                k
            };
            self.code.push(Inst::Cast { op: k, dst, a: x, wi, wo, n: lo.len() as u32 });
            return;
        }
        match op {
            "alloca" => {
                skipflags!();
                let t = parse_type(&mut c, self.ts);
                let (s, a) = self.ts.size_align(t);
                let mut count = Opd::C(1);
                let mut align = a as u32;
                while c.eat(b',') {
                    if c.eatw("align") {
                        align = num(&mut c).parse().unwrap();
                    } else if c.peek().is_some_and(is_type_start) {
                        let (_, o) = self.typed(&mut c);
                        count = o;
                    } else {
                        break;
                    }
                }
                let dst = self.reg(dst_name.unwrap(), 1);
                self.code.push(Inst::Alloca { dst, size: s, align, count });
            }
            "load" => {
                skipflags!();
                let t = parse_type(&mut c, self.ts);
                c.expect(b',');
                let (_, p) = self.typed(&mut c);
                let align = Self::find_align(&c);
                let ord = if atomic { Self::find_ord(&c) } else { Ord::NotAtomic };
                let l = self.ts.leaves(t);
                let dst = self.reg(dst_name.unwrap(), l.len() as u32);
                if l.len() == 1 && l[0].0 == 0 {
                    self.code.push(Inst::Load { dst, ptr: p, w: l[0].1, align, ord });
                } else {
                    self.code.push(Inst::LoadM { dst, ptr: p, leaves: l.into(), align });
                }
            }
            "store" => {
                skipflags!();
                let (t, v) = self.typed(&mut c);
                c.expect(b',');
                let (_, p) = self.typed(&mut c);
                let align = Self::find_align(&c);
                let ord = if atomic { Self::find_ord(&c) } else { Ord::NotAtomic };
                let l = self.ts.leaves(t);
                if l.len() == 1 && l[0].0 == 0 {
                    self.code.push(Inst::Store { ptr: p, val: v, w: l[0].1, align, ord });
                } else {
                    self.code.push(Inst::StoreM { ptr: p, val: v, leaves: l.into(), align });
                }
            }
            "getelementptr" => {
                skipflags!();
                let e = parse_type(&mut c, self.ts);
                c.expect(b',');
                let (pt, p) = self.typed(&mut c);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = e;
                let mut first = true;
                if self.ts.nleaves(pt) != 1 {
                    self.code.push(Inst::Unsupported(text.to_string()));
                    self.reg(dst_name.unwrap(), self.ts.nleaves(pt));
                    return;
                }
                while c.eat(b',') {
                    if !c.peek().is_some_and(is_type_start) {
                        break;
                    }
                    let (it, o) = self.typed(&mut c);
                    match o {
                        Opd::C(v) => {
                            let v = crate::expr::sext(v as u128, self.ts.bits(it)) as i64 as u64;
                            off = off.wrapping_add(gep_step(self.ts, &mut cur, v, first));
                        }
                        _ => {
                            let sc = gep_step(self.ts, &mut cur, 1, first);
                            idx.push((o, self.ts.bits(it), sc));
                        }
                    }
                    first = false;
                }
                let dst = self.reg(dst_name.unwrap(), 1);
                if idx.is_empty() {
                    self.code.push(Inst::GepC { dst, ptr: p, off });
                } else {
                    self.code.push(Inst::Gep { dst, ptr: p, off, idx: idx.into() });
                }
            }
            "icmp" | "fcmp" => {
                skipflags!();
                let p = c.word();
                let p = if op == "icmp" {
                    match p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        _ => Pred::Sle,
                    }
                } else {
                    match p {
                        "false" => Pred::FFalse,
                        "oeq" => Pred::FOeq,
                        "ogt" => Pred::FOgt,
                        "oge" => Pred::FOge,
                        "olt" => Pred::FOlt,
                        "ole" => Pred::FOle,
                        "one" => Pred::FOne,
                        "ord" => Pred::FOrd,
                        "ueq" => Pred::FUeq,
                        "ugt" => Pred::FUgt,
                        "uge" => Pred::FUge,
                        "ult" => Pred::FUlt,
                        "ule" => Pred::FUle,
                        "une" => Pred::FUne,
                        "uno" => Pred::FUno,
                        _ => Pred::FTrue,
                    }
                };
                let (t, x) = self.typed(&mut c);
                c.expect(b',');
                let y = self.opd(&mut c, t);
                let l = self.ts.leaves(t);
                let dst = self.reg(dst_name.unwrap(), l.len() as u32);
                self.code.push(Inst::Cmp { p, w: l[0].1, n: l.len() as u32, dst, a: x, b: y });
            }
            "select" => {
                skipflags!();
                let (tc, cc) = self.typed(&mut c);
                c.expect(b',');
                let (t, x) = self.typed(&mut c);
                c.expect(b',');
                let (_, y) = self.typed(&mut c);
                let l = self.ts.leaves(t);
                let n = l.len() as u32;
                let veccond = self.ts.nleaves(tc) > 1;
                let dst = self.reg(dst_name.unwrap(), n);
                self.code.push(Inst::Select { dst, c: cc, a: x, b: y, n, veccond, leaves: l.into() });
            }
            "bitcast" => {
                let (t, x) = self.typed(&mut c);
                assert_eq!(c.word(), "to");
                let o = parse_type(&mut c, self.ts);
                let li = self.ts.leaves(t);
                let lo = self.ts.leaves(o);
                let dst = self.reg(dst_name.unwrap(), lo.len() as u32);
                self.code.push(Inst::Bitcast {
                    dst,
                    a: x,
                    wi: li[0].1,
                    ni: li.len() as u32,
                    wo: lo[0].1,
                    no: lo.len() as u32,
                });
            }
            "fneg" => {
                skipflags!();
                let (t, x) = self.typed(&mut c);
                let l = self.ts.leaves(t);
                let dst = self.reg(dst_name.unwrap(), l.len() as u32);
                self.code.push(Inst::FNeg { dst, a: x, w: l[0].1, n: l.len() as u32 });
            }
            "freeze" => {
                let (t, x) = self.typed(&mut c);
                let n = self.ts.nleaves(t);
                let dst = self.reg(dst_name.unwrap(), n);
                self.code.push(Inst::Move { dst, a: x, from: 0, n });
            }
            "extractvalue" => {
                let (t, x) = self.typed(&mut c);
                let mut path = vec![];
                while c.eat(b',') {
                    match c.peek() {
                        Some(Tok::Num(n)) => {
                            path.push(n.parse().unwrap());
                            c.i += 1
                        }
                        _ => break,
                    }
                }
                let (at, mt) = self.ts.member(t, &path);
                let n = self.ts.nleaves(mt);
                let dst = self.reg(dst_name.unwrap(), n);
                self.code.push(Inst::Move { dst, a: x, from: at, n });
            }
            "insertvalue" => {
                let (t, x) = self.typed(&mut c);
                c.expect(b',');
                let (vt, v) = self.typed(&mut c);
                let mut path = vec![];
                while c.eat(b',') {
                    match c.peek() {
                        Some(Tok::Num(n)) => {
                            path.push(n.parse().unwrap());
                            c.i += 1
                        }
                        _ => break,
                    }
                }
                let (at, _) = self.ts.member(t, &path);
                let total = self.ts.nleaves(t);
                let n = self.ts.nleaves(vt);
                let dst = self.reg(dst_name.unwrap(), total);
                self.code.push(Inst::InsertV { dst, agg: x, total, at, val: v, n });
            }
            "extractelement" => {
                let (t, x) = self.typed(&mut c);
                c.expect(b',');
                let (_, i) = self.typed(&mut c);
                let l = self.ts.leaves(t);
                let dst = self.reg(dst_name.unwrap(), 1);
                self.code.push(Inst::ExtractE { dst, v: x, n: l.len() as u32, idx: i, w: l[0].1 });
            }
            "insertelement" => {
                let (t, x) = self.typed(&mut c);
                c.expect(b',');
                let (_, v) = self.typed(&mut c);
                c.expect(b',');
                let (_, i) = self.typed(&mut c);
                let n = self.ts.nleaves(t);
                let dst = self.reg(dst_name.unwrap(), n);
                self.code.push(Inst::InsertE { dst, v: x, n, val: v, idx: i });
            }
            "shufflevector" => {
                let (t, x) = self.typed(&mut c);
                c.expect(b',');
                let (_, y) = self.typed(&mut c);
                c.expect(b',');
                let mt = parse_type(&mut c, self.ts);
                let k = self.ts.nleaves(mt);
                let mask: Vec<i32> = match self.m.value(&mut c, self.ts, mt) {
                    Val::Splat(v) => vec![v as i32; k as usize],
                    Val::List(l) => l
                        .iter()
                        .map(|x| match x {
                            K::C(v) => *v as i32,
                            _ => 0,
                        })
                        .collect(),
                    _ => unreachable!(),
                };
                let n = self.ts.nleaves(t);
                let dst = self.reg(dst_name.unwrap(), k);
                self.code.push(Inst::Shuffle { dst, a: x, b: y, n, mask: mask.into() });
            }
            "phi" => {
                skipflags!();
                let t = parse_type(&mut c, self.ts);
                let n = self.ts.nleaves(t);
                let dst = self.reg(dst_name.unwrap(), n);
                let mut inc = vec![];
                loop {
                    if !c.eat(b'[') {
                        break;
                    }
                    let o = self.opd(&mut c, t);
                    c.expect(b',');
                    let b = match c.next() {
                        Tok::Local(n) => n.to_string(),
                        t => panic!("{t:?}"),
                    };
                    c.expect(b']');
                    inc.push((o, b));
                    if !c.eat(b',') {
                        break;
                    }
                }
                let b = self.block.clone();
                self.phis.entry(b).or_default().push((dst, n, inc));
            }
            "br" => {
                if matches!(c.peek(), Some(Tok::Word("label"))) {
                    let e = self.label(&mut c);
                    self.code.push(Inst::Br { e });
                } else {
                    let (_, o) = self.typed(&mut c);
                    c.expect(b',');
                    let t = self.label(&mut c);
                    c.expect(b',');
                    let f = self.label(&mut c);
                    self.code.push(Inst::CondBr { c: o, t, f });
                }
            }
            "switch" => {
                let (t, v) = self.typed(&mut c);
                c.expect(b',');
                let def = self.label(&mut c);
                c.expect(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let (_, k) = self.typed(&mut c);
                    c.expect(b',');
                    let e = self.label(&mut c);
                    match k {
                        Opd::C(k) => cases.push((k, e)),
                        _ => {
                            self.code.push(Inst::Unsupported(text.to_string()));
                            return;
                        }
                    }
                }
                let w = self.ts.bits(t);
                self.code.push(Inst::Switch { v, w, def, cases: cases.into() });
            }
            "ret" => {
                if c.eatw("void") {
                    self.code.push(Inst::Ret { v: Opd::C(0), n: 0 });
                } else {
                    let (t, o) = self.typed(&mut c);
                    let n = self.ts.nleaves(t);
                    self.code.push(Inst::Ret { v: o, n });
                }
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            "landingpad" => {
                self.reg(dst_name.unwrap(), 2);
                self.code.push(Inst::Landing);
            }
            "resume" => self.code.push(Inst::Resume),
            "fence" => {
                let ord = Self::find_ord(&c);
                self.code.push(Inst::Fence { ord });
            }
            "atomicrmw" => {
                skipflags!();
                let k = c.word();
                let k = match k {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    k => panic!("atomicrmw {k}"),
                };
                let (_, p) = self.typed(&mut c);
                c.expect(b',');
                let (t, v) = self.typed(&mut c);
                let ord = Self::find_ord(&c);
                let dst = self.reg(dst_name.unwrap(), 1);
                let w = self.ts.bits(t);
                self.code.push(Inst::Rmw { op: k, dst, ptr: p, v, w, ord });
            }
            "cmpxchg" => {
                let weak = c.eatw("weak");
                c.eatw("volatile");
                let (_, p) = self.typed(&mut c);
                c.expect(b',');
                let (t, x) = self.typed(&mut c);
                c.expect(b',');
                let (_, y) = self.typed(&mut c);
                let mut os = vec![];
                while let Some(Tok::Word(w)) = c.peek() {
                    match Self::ord(w) {
                        Some(o) => {
                            os.push(o);
                            c.i += 1
                        }
                        None => break,
                    }
                }
                let dst = self.reg(dst_name.unwrap(), 2);
                let w = self.ts.bits(t);
                self.code.push(Inst::CmpXchg {
                    dst,
                    ptr: p,
                    cmp: x,
                    new: y,
                    w,
                    ord: os[0],
                    ford: os[1],
                    weak,
                });
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                let mut invoke = op == "invoke";
                if op != "call" && op != "invoke" {
                    invoke = c.word() == "invoke";
                }
                // calling convention, attributes, fast-math flags
                while !is_type_start(c.peek().unwrap()) {
                    let w = c.next().clone();
                    if c.is(b'(') {
                        c.skip_paren();
                    }
                    if w == Tok::Word("align") || w == Tok::Word("cc") {
                        if matches!(c.peek(), Some(Tok::Num(_))) {
                            c.i += 1
                        }
                    }
                }
                let rt = parse_type(&mut c, self.ts);
                // explicit function type
                if c.is(b'(') {
                    c.skip_paren();
                }
                let mut name = String::new();
                let callee = match c.peek().unwrap() {
                    Tok::Global(g) => {
                        c.i += 1;
                        name = g.to_string();
                        let mut g: &str = g;
                        while let Some(t) = self.m.aliases.get(g) {
                            g = t;
                        }
                        Callee::Func(*self.m.fmap.get(g).unwrap_or_else(|| panic!("callee {g}")))
                    }
                    Tok::Word("asm") => {
                        c.i += 1;
                        let mut s = String::new();
                        while !c.is(b'(') {
                            if let Tok::Str(x) = c.next() {
                                s.push_str(x);
                                s.push('|');
                            }
                        }
                        Callee::Asm(s)
                    }
                    _ => {
                        let pt = self.ts.id(Ty::Ptr);
                        Callee::Dyn(self.opd(&mut c, pt))
                    }
                };
                c.expect(b'(');
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = parse_type(&mut c, self.ts);
                        if self.ts.v[t as usize] == Ty::Meta {
                            // skip to , or )
                            let mut d = 0;
                            loop {
                                match c.peek().unwrap() {
                                    Tok::P(b'(') => d += 1,
                                    Tok::P(b')') if d == 0 => break,
                                    Tok::P(b')') => d -= 1,
                                    Tok::P(b',') if d == 0 => break,
                                    _ => {}
                                }
                                c.i += 1;
                            }
                        } else {
                            // attributes
                            loop {
                                match c.peek().unwrap() {
                                    Tok::Word(
                                        "true" | "false" | "null" | "undef" | "poison"
                                        | "zeroinitializer" | "inttoptr" | "getelementptr"
                                        | "ptrtoint" | "splat" | "sub" | "add" | "trunc" | "none"
                                        | "bitcast" | "xor" | "and",
                                    ) => break,
                                    Tok::Word(h) if h.starts_with("f0x") => break,
                                    Tok::Word("align") => {
                                        c.i += 1;
                                        if matches!(c.peek(), Some(Tok::Num(_))) {
                                            c.i += 1
                                        } else if c.is(b'(') {
                                            c.skip_paren()
                                        }
                                    }
                                    Tok::Word(_) => {
                                        c.i += 1;
                                        if c.is(b'(') {
                                            c.skip_paren()
                                        }
                                    }
                                    Tok::Str(_) if self.ts.nleaves(t) == 1 => {
                                        // string attribute
                                        c.i += 1;
                                    }
                                    _ => break,
                                }
                            }
                            let o = self.opd(&mut c, t);
                            let l = self.ts.leaves(t);
                            args.push((o, l.len() as u32, l.into()));
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                let ret: Leaves = self.ts.leaves(rt).into();
                let dst = match dst_name {
                    Some(n) => self.reg(n, ret.len() as u32),
                    None => {
                        let r = self.nregs;
                        self.nregs += ret.len() as u32;
                        r
                    }
                };
                let mut normal = None;
                if invoke {
                    while !matches!(c.peek(), Some(Tok::Word("to"))) {
                        c.i += 1
                    }
                    c.i += 1;
                    normal = Some(self.label(&mut c));
                }
                self.code.push(Inst::Call(Box::new(CallI { callee, args, dst, ret, normal, name })));
            }
            _ => {
                if let Some(n) = dst_name {
                    self.reg(n, 1);
                }
                self.code.push(Inst::Unsupported(text.to_string()));
            }
        }
    }
}

fn special_float(n: &str) -> Option<f64> {
    let (sign, name) = n.split_at(1);
    let v = match name {
        "inf" => f64::INFINITY,
        "qnan" => f64::from_bits(0x7ff8_0000_0000_0000),
        _ => return None,
    };
    Some(if sign == "-" { -v } else { v })
}
