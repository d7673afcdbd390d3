//! Symbolic interpreter for LLVM IR functions.
use crate::expr::*;
use crate::ll::{self, *};
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    C(u64),
    S(Id),
}

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub fid: u32,
    pub regs: Vec<V>,
    pub pc: u32,
    pub allocas: Vec<u32>,
    pub ret_dst: u32,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub done: bool,
    pub vc: Vec<u32>,
    pub blocked_join: bool,
    /// has nothing to do before another thread took a step
    pub waiting: bool,
    pub fence_acq: Vec<u32>,
    pub fence_rel: Option<Vec<u32>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub dom: Rc<Vec<Bits>>,
    pub ent: Rc<Vec<bool>>,
    pub multi: Rc<Vec<Id>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub decisions: Rc<Vec<u64>>,
    pub forced: Rc<Vec<u64>>,
    pub fpos: usize,
    pub cur: Vec<u64>,
    pub covers: Rc<Vec<u32>>,
    pub observed: Rc<Vec<V>>,
    pub insts: u64,
    pub expect_panic: bool,
    pub approx: bool,
    pub depth: u32,
    // concurrency
    pub threads: Vec<Thread>,
    pub tid: usize,
    pub conc: Option<Rc<Conc>>,
    pub sched: u32,
    pub tls: Rc<BTreeMap<(usize, u32), u32>>,
    pub yielded: bool,
    pub scratch: Rc<BTreeMap<u64, u64>>,
    /// the thread that goes on, at every point where that is a choice
    pub schedule: Rc<Vec<u8>>,
}

#[derive(Clone, Default)]
pub struct Conc {
    /// last write and reads per (object, 8-byte cell)
    pub cells: HashMap<(u32, u32), Cell, FxBuild>,
    /// release clocks of atomic locations
    pub rel: HashMap<u64, Vec<u32>, FxBuild>,
}
#[derive(Clone, Default)]
pub struct Cell {
    pub w: Vec<(u32, u32, u8)>, // tid, clock, byte mask
    pub r: Vec<(u32, u32, u8)>,
}

pub enum Stop {
    /// path ended normally (true) or was cut by an assumption (false)
    End(bool),
    Violation(String, String),
    Incomplete(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug, Default)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub model: Vec<u8>,
    pub schedule: Vec<u8>,
    pub count: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub model: Vec<u8>,
    pub schedule: Vec<u8>,
    pub outcome: String,
    pub hash: u64,
    pub covers: Vec<u32>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub cut: u64,
    pub ended_panic: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub insts: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub covers: BTreeMap<u32, u64>,
    pub viols: BTreeMap<String, Viol>,
    pub traces: Vec<Trace>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub fast: u64,
    pub fns: HashSet<u32>,
    pub dump: Vec<(String, bool)>,
    pub maxvars: u32,
    pub timeout: bool,
    pub observed_samples: Vec<Vec<u8>>,
}

pub struct Job {
    pub forced: Vec<u64>,
    pub model: Vec<u8>,
}

pub struct Shared {
    pub m: &'static Module,
    pub queue: Mutex<(Vec<Job>, usize, bool)>, // jobs, idle workers, finished
    pub cv: Condvar,
    pub hungry: std::sync::atomic::AtomicUsize,
    pub stop: std::sync::atomic::AtomicBool,
    pub report: Mutex<Report>,
    pub cfg: Config,
    pub start: Instant,
    pub npaths: std::sync::atomic::AtomicU64,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub entry: String,
    pub workers: usize,
    pub time: f64,
    pub max_insts: u64,
    pub max_depth: usize,
    pub max_paths: u64,
    pub concrete_limit: usize,
    pub audit: bool,
    pub traces: usize,
    pub solver_ms: u32,
    pub dump_every: u64,
    pub concrete: Option<Vec<u8>>,
    pub verbose: bool,
    pub max_viol: usize,
    pub preempt: u32,
    pub trace: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    LibcRealloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Nop,
    NopZero,
    PanicFmt,
    PanicNounwind,
    PanicOther,
    Abort,
    SymBytes,
    SymAssume,
    SymAssert,
    SymFail,
    SymCover,
    SymObserve,
    SymLive,
    SymExpectPanic,
    SymConcretize,
    SymEnd,
    SymSpawn,
    SymJoin,
    SymYield,
    Pause,
    SchedYield,
    Syscall,
    SymDump,
    SymConfirm,
    SymForkless,
    Getrandom,
    Getenv,
    ErrnoLoc,
    Tls,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddS,
    UsubS,
    SaddS,
    SsubS,
    Scmp,
    Ucmp,
    IsConst,
    Expect,
    FptouiSat,
    FptosiSat,
    Floor,
    Ceil,
    TruncF,
    RoundEven,
    RoundF,
    Fabs,
    Copysign,
    Sqrt,
    Pow,
    FmaConcrete,
    MinNum,
    MaxNum,
    MinimumNum,
    MaximumNum,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceXor,
    ReduceUmax,
    ReduceUmin,
    ReduceMul,
    Psadbw,
    Ptrmask,
    Write,
    FilterHashFinish,
    Fmod,
    IsFpClass,
}

pub fn classify(name: &str) -> Bi {
    if let Some(n) = name.strip_prefix("llvm.") {
        let p = |x: &str| n.starts_with(x);
        return if p("memcpy") {
            Bi::Memcpy
        } else if p("memmove") {
            Bi::Memmove
        } else if p("memset") {
            Bi::Memset
        } else if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg") || p("invariant") || p("prefetch") || p("donothing") {
            Bi::Nop
        } else if p("x86.sse2.pause") {
            Bi::Pause
        } else if p("umax") {
            Bi::Umax
        } else if p("umin") {
            Bi::Umin
        } else if p("smax") {
            Bi::Smax
        } else if p("smin") {
            Bi::Smin
        } else if p("abs") {
            Bi::Abs
        } else if p("ctpop") {
            Bi::Ctpop
        } else if p("ctlz") {
            Bi::Ctlz
        } else if p("cttz") {
            Bi::Cttz
        } else if p("bswap") {
            Bi::Bswap
        } else if p("bitreverse") {
            Bi::Bitrev
        } else if p("fshl") {
            Bi::Fshl
        } else if p("fshr") {
            Bi::Fshr
        } else if p("uadd.with") {
            Bi::UaddO
        } else if p("usub.with") {
            Bi::UsubO
        } else if p("umul.with") {
            Bi::UmulO
        } else if p("sadd.with") {
            Bi::SaddO
        } else if p("ssub.with") {
            Bi::SsubO
        } else if p("smul.with") {
            Bi::SmulO
        } else if p("uadd.sat") {
            Bi::UaddS
        } else if p("usub.sat") {
            Bi::UsubS
        } else if p("sadd.sat") {
            Bi::SaddS
        } else if p("ssub.sat") {
            Bi::SsubS
        } else if p("scmp") {
            Bi::Scmp
        } else if p("ucmp") {
            Bi::Ucmp
        } else if p("is.constant") {
            Bi::IsConst
        } else if p("expect") {
            Bi::Expect
        } else if p("trap") || p("ubsantrap") {
            Bi::Abort
        } else if p("threadlocal.address") {
            Bi::Tls
        } else if p("fptoui.sat") {
            Bi::FptouiSat
        } else if p("fptosi.sat") {
            Bi::FptosiSat
        } else if p("floor") {
            Bi::Floor
        } else if p("ceil") {
            Bi::Ceil
        } else if p("trunc") {
            Bi::TruncF
        } else if p("roundeven") || p("rint") || p("nearbyint") {
            Bi::RoundEven
        } else if p("round") {
            Bi::RoundF
        } else if p("fabs") {
            Bi::Fabs
        } else if p("copysign") {
            Bi::Copysign
        } else if p("sqrt") {
            Bi::Sqrt
        } else if p("fma") || p("fmuladd") {
            Bi::FmaConcrete
        } else if p("minnum") {
            Bi::MinNum
        } else if p("maxnum") {
            Bi::MaxNum
        } else if p("minimumnum") {
            Bi::MinimumNum
        } else if p("maximumnum") {
            Bi::MaximumNum
        } else if p("vector.reduce.or") {
            Bi::ReduceOr
        } else if p("vector.reduce.and") {
            Bi::ReduceAnd
        } else if p("vector.reduce.add") {
            Bi::ReduceAdd
        } else if p("vector.reduce.xor") {
            Bi::ReduceXor
        } else if p("vector.reduce.umax") {
            Bi::ReduceUmax
        } else if p("vector.reduce.umin") {
            Bi::ReduceUmin
        } else if p("vector.reduce.mul") {
            Bi::ReduceMul
        } else if p("x86.sse2.psad.bw") {
            Bi::Psadbw
        } else if p("ptrmask") {
            Bi::Ptrmask
        } else if p("is.fpclass") {
            Bi::IsFpClass
        } else {
            Bi::None
        };
    }
    match name {
        "malloc" => return Bi::Malloc,
        "calloc" => return Bi::Calloc,
        "realloc" => return Bi::LibcRealloc,
        "free" => return Bi::Free,
        "posix_memalign" => return Bi::PosixMemalign,
        "memcmp" => return Bi::Memcmp,
        "bcmp" => return Bi::Bcmp,
        "memcpy" => return Bi::Memcpy,
        "memmove" => return Bi::Memmove,
        "memset" => return Bi::Memset,
        "strlen" => return Bi::Strlen,
        "abort" => return Bi::Abort,
        "sym_bytes" => return Bi::SymBytes,
        "sym_assume" => return Bi::SymAssume,
        "sym_assert" => return Bi::SymAssert,
        "sym_fail" => return Bi::SymFail,
        "sym_cover" => return Bi::SymCover,
        "sym_observe" => return Bi::SymObserve,
        "sym_live" => return Bi::SymLive,
        "sym_expect_panic" => return Bi::SymExpectPanic,
        "sym_concretize" => return Bi::SymConcretize,
        "sym_end" => return Bi::SymEnd,
        "sym_spawn" => return Bi::SymSpawn,
        "sym_join" => return Bi::SymJoin,
        "sym_yield" => return Bi::SymYield,
        "sched_yield" => return Bi::SchedYield,
        "syscall" => return Bi::Syscall,
        "sym_dump" => return Bi::SymDump,
        "getrandom" => return Bi::Getrandom,
        "getenv" => return Bi::Getenv,
        "__errno_location" => return Bi::ErrnoLoc,
        "write" | "writev" => return Bi::Write,
        "fmod" => return Bi::Fmod,
        "pow" => return Bi::Pow,
        _ => {}
    }
    if name.starts_with("_R") {
        if name.ends_with("___rust_alloc") {
            return Bi::Alloc;
        }
        if name.ends_with("___rust_alloc_zeroed") {
            return Bi::AllocZ;
        }
        if name.ends_with("___rust_dealloc") {
            return Bi::Dealloc;
        }
        if name.ends_with("___rust_realloc") {
            return Bi::Realloc;
        }
        if name.contains("___rust_no_alloc_shim_is_unstable") {
            return Bi::Nop;
        }
        if name.contains("4core9panicking") {
            if name.ends_with("9panic_fmt") {
                return Bi::PanicFmt;
            }
            if name.ends_with("18panic_nounwind_fmt") {
                return Bi::PanicNounwind;
            }
        }
        if name.contains("hashmap_random_keys") {
            return Bi::NopZero;
        }
        if name.contains("3std9panicking") && (name.contains("11begin_panic") || name.contains("rust_panic_with_hook") || name.contains("15panic_with_hook") || name.contains("13panic_handler")) && !name.contains("PanicPayload") && !name.contains("Payload") {
            return Bi::PanicOther;
        }
        if name.ends_with("18handle_alloc_error") || name.ends_with("17capacity_overflow") && name.contains("raw_vec") && !name.contains("Fallibility") {
            return Bi::PanicOther;
        }
        if name.contains("3std7process5abort") || name.contains("14abort_internal") {
            return Bi::Abort;
        }
    }
    Bi::None
}

pub struct Exec<'s> {
    pub sh: &'s Shared,
    pub m: &'static Module,
    pub ar: Arena,
    pub sv: Solver,
    pub bis: Vec<Bi>,
    pub work: Vec<State>,
    pub rep: Report,
    pub init: State,
    cache: HashMap<Vec<u64>, (Res, Rc<Vec<(u32, u8)>>), FxBuild>,
    funcs: Vec<Option<&'static Func>>,
    ncert: u64,
    nsimp: u64,
    certified: std::collections::HashSet<Id, FxBuild>,
    narrowed: HashMap<Id, Id, FxBuild>,
    ticks: u32,
}

fn vc_join(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0)
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y)
    }
}

impl<'s> Exec<'s> {
    pub fn new(sh: &'s Shared) -> Self {
        let m = sh.m;
        let mut mem = Mem::new();
        for (i, g) in m.globals.iter().enumerate() {
            let id = 1 + i as u32;
            if !g.defined {
                continue;
            }
            mem.put(
                id,
                Some(Rc::new(Obj {
                    data: g.init.clone(),
                    sym: vec![],
                    base: m.global_addr(i as u32),
                    kind: if g.constant { Kind::Const } else { Kind::Global },
                })),
            );
        }
        mem.next = m.first_free();
        let init = State {
            frames: vec![],
            mem,
            dom: Rc::new(vec![]),
            ent: Rc::new(vec![]),
            multi: Rc::new(vec![]),
            model: Rc::new(vec![]),
            nvars: 0,
            decisions: Rc::new(vec![]),
            forced: Rc::new(vec![]),
            fpos: 0,
            cur: vec![],
            covers: Rc::new(vec![]),
            observed: Rc::new(vec![]),
            insts: 0,
            expect_panic: false,
            approx: false,
            depth: 0,
            threads: vec![],
            tid: 0,
            conc: None,
            sched: 0,
            tls: Rc::new(BTreeMap::new()),
            yielded: false,
            scratch: Rc::new(BTreeMap::new()),
            schedule: Rc::new(vec![]),
        };
        let mut sv = Solver::new(sh.cfg.solver_ms);
        sv.dump_every = sh.cfg.dump_every;
        Exec {
            sh,
            m,
            ar: Arena::new(),
            sv,
            // what a harness defines of the system itself is taken as it is
            bis: m
                .fns
                .iter()
                .map(|f| match classify(&f.name) {
                    Bi::ErrnoLoc | Bi::Write | Bi::Getenv if f.body.0 != f.body.1 => Bi::None,
                    b => b,
                })
                .collect(),
            work: vec![],
            rep: Report::default(),
            init,
            cache: Default::default(),
            funcs: vec![None; m.fns.len()],
            certified: Default::default(),
            ncert: 0,
            nsimp: 0,
            narrowed: Default::default(),
            ticks: 0,
        }
    }

    // ------------------------------------------------------------ values

    #[inline]
    fn get(&mut self, f: &Frame, o: Opd, leaf: u32) -> V {
        match o {
            Opd::R(r) => f.regs[(r + leaf) as usize],
            Opd::C(c) => V::C(c),
            Opd::K(k) => match f.func.consts[(k + leaf) as usize] {
                K::C(c) => V::C(c),
                K::W(w, v) => V::S(self.ar.konst(w, v)),
            },
        }
    }
    #[inline]
    fn wide0(&mut self, v: V, w: u32) -> V {
        // an `undef`/zero splat of a wide integer arrives as C(0)
        if w > 64 {
            if let V::C(c) = v {
                return V::S(self.ar.konst(w, c as u128));
            }
        }
        v
    }
    fn sy(&mut self, v: V, w: u32) -> Id {
        match v {
            V::C(c) => self.ar.konst(w, c as u128),
            V::S(i) => {
                debug_assert_eq!(self.ar.w(i), w, "{}", self.ar.show(i, 3));
                i
            }
        }
    }
    fn mk(&self, i: Id) -> V {
        if self.ar.w(i) <= 64 {
            if let Some(c) = self.ar.as_const(i) {
                return V::C(c as u64);
            }
        }
        V::S(i)
    }

    // ------------------------------------------------------------ constraints

    fn slice(&self, st: &State, vars: &[u32]) -> (Vec<Id>, Vec<u32>) {
        let mut vs: Vec<u32> = vars.to_vec();
        let mut seen: HashSet<u32, FxBuild> = vs.iter().copied().collect();
        let mut used = vec![false; st.multi.len()];
        let mut conds = vec![];
        loop {
            let mut changed = false;
            for (k, &c) in st.multi.iter().enumerate() {
                if used[k] {
                    continue;
                }
                if let Sup::Many(s) = self.ar.sup(c) {
                    let set = self.ar.vars_rc(s);
                    if set.iter().any(|v| seen.contains(v)) {
                        used[k] = true;
                        conds.push(c);
                        changed = true;
                        for &v in set.iter() {
                            if seen.insert(v) {
                                vs.push(v)
                            }
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        (conds, vs)
    }

    /// Satisfiability of the path condition together with `cond`.
    fn query(&mut self, st: &State, cond: Id) -> (Res, Rc<Vec<(u32, u8)>>) {
        let vars = self.ar.vars(self.ar.sup(cond));
        let (mut conds, mut vs) = self.slice(st, &vars);
        conds.push(cond);
        vs.sort_unstable();
        let doms: Vec<(u32, Bits)> = vs
            .iter()
            .map(|&v| (v, st.dom.get(v as usize).copied().unwrap_or([!0; 4])))
            .collect();
        let mut key: Vec<u64> = conds.iter().map(|&c| c as u64).collect();
        key.sort_unstable();
        key.push(u64::MAX);
        for (v, b) in &doms {
            key.push(*v as u64);
            key.extend(b);
        }
        if let Some(r) = self.cache.get(&key) {
            return r.clone();
        }
        let mut model = vec![];
        let t0 = std::time::Instant::now();
        let r = self.sv.check(&self.ar, &conds, &doms, &vs, &mut model);
        if self.sh.cfg.verbose && t0.elapsed().as_secs_f64() > 0.3 {
            let f: Vec<String> = self.location(st).into_iter().take(6).collect();
            eprintln!("slow {:.1}s {r:?} conds {} vars {} in {f:?}: {}", t0.elapsed().as_secs_f64(), conds.len(), vs.len(), self.ar.show(cond, 5));
        }
        let out = if r == Res::Sat {
            // the model is re-evaluated under the encoding before it is used
            let mut full: Vec<u8> = (*st.model).clone();
            for &v in &vs {
                if full.len() <= v as usize {
                    full.resize(v as usize + 1, 0)
                }
                full[v as usize] = model.get(v as usize).copied().unwrap_or(0);
            }
            for &c in &conds {
                if self.ar.eval(c, &full) != 1 {
                    eprintln!("pensym: solver model does not satisfy {}", self.ar.show(c, 6));
                    std::process::exit(71);
                }
            }
            Rc::new(vs.iter().map(|&v| (v, full[v as usize])).collect::<Vec<_>>())
        } else {
            Rc::new(vec![])
        };
        if self.cache.len() > 200_000 {
            self.cache.clear();
        }
        self.cache.insert(key, (r, out.clone()));
        (r, out)
    }

    fn apply_model(&self, st: &mut State, m: &[(u32, u8)]) {
        let md = Rc::make_mut(&mut st.model);
        for &(v, x) in m {
            if md.len() <= v as usize {
                md.resize(v as usize + 1, 0)
            }
            md[v as usize] = x;
        }
    }

    /// Adds a condition known to be satisfiable together with the path condition.
    fn add(&mut self, st: &mut State, c: Id) {
        let c = self.narrow(st, c);
        if c == self.ar.tru {
            return;
        }
        if let E::Bin(Op::And, a, b) = self.ar.e(c) {
            self.add(st, a);
            self.add(st, b);
            return;
        }
        match self.ar.sup(c) {
            Sup::None => {}
            Sup::One(v) => {
                let b = self.ar.bits(c);
                let d = Rc::make_mut(&mut st.dom);
                while d.len() <= v as usize {
                    d.push([!0; 4])
                }
                for k in 0..4 {
                    d[v as usize][k] &= b[k]
                }
            }
            Sup::Many(s) => {
                if st.multi.contains(&c) {
                    return;
                }
                Rc::make_mut(&mut st.multi).push(c);
                let set = self.ar.vars_rc(s);
                let e = Rc::make_mut(&mut st.ent);
                for &v in set.iter() {
                    if e.len() <= v as usize {
                        e.resize(v as usize + 1, false)
                    }
                    e[v as usize] = true;
                }
            }
        }
    }

    /// The expression simplified under the byte domains of the path.
    fn narrow(&mut self, st: &State, e: Id) -> Id {
        if self.sh.cfg.audit || !matches!(self.ar.sup(e), Sup::Many(_)) {
            return e;
        }
        let mut memo = std::mem::take(&mut self.narrowed);
        memo.clear();
        let r = self.ar.under(e, &st.dom, &mut memo);
        self.narrowed = memo;
        r
    }

    /// Domain decisions rest on truth tables of single-byte conditions. Each table is proved by the solver, once.
    fn certify(&mut self, v: u32, c: Id) -> R<()> {
        if !self.certified.insert(c) {
            return Ok(());
        }
        // Conditions over computed addresses differ from path to path; one in 64 of the large ones is taken.
        self.ncert += 1;
        if self.ar.larger(c, 20) && self.ncert % 64 != 0 {
            return Ok(());
        }
        let t = self.ar.bits(c);
        let mut f = t;
        f.iter_mut().for_each(|x| *x = !*x);
        let n = self.ar.not(c);
        let mut model = vec![];
        for (cond, d) in [(n, t), (c, f)] {
            if d == [0; 4] {
                continue;
            }
            match self.sv.check(&self.ar, &[cond], &[(v, d)], &[v], &mut model) {
                Res::Unsat => {}
                Res::Unknown => return Err(Stop::Incomplete("solver gave up on a branch".into())),
                Res::Sat => {
                    eprintln!("pensym: the solver contradicts the table of {}", self.ar.show(c, 6));
                    std::process::exit(72);
                }
            }
        }
        Ok(())
    }

    fn domain(&self, st: &State, v: u32) -> Bits {
        st.dom.get(v as usize).copied().unwrap_or([!0; 4])
    }

    /// Feasibility of `c` and of its negation, with models for the sides that need one.
    #[allow(clippy::type_complexity)]
    fn both(
        &mut self,
        st: &State,
        c: Id,
    ) -> R<(bool, bool, Option<Rc<Vec<(u32, u8)>>>, Option<Rc<Vec<(u32, u8)>>>)> {
        let holds = self.ar.eval(c, &st.model) == 1;
        if let Sup::One(v) = self.ar.sup(c) {
            let b = self.ar.bits(c);
            let d = self.domain(st, v);
            let mut t = [0; 4];
            let mut f = [0; 4];
            for k in 0..4 {
                t[k] = d[k] & b[k];
                f[k] = d[k] & !b[k];
            }
            let (te, fe) = (t == [0; 4], f == [0; 4]);
            if !self.sh.cfg.audit {
                if te || fe {
                    self.rep.fast += 1;
                    self.certify(v, c)?;
                    return Ok((!te, !fe, None, None));
                }
                if !st.ent.get(v as usize).copied().unwrap_or(false) {
                    self.rep.fast += 1;
                    let pick = |s: &Bits| {
                        for k in 0..256 {
                            if s[k / 64] >> (k % 64) & 1 == 1 {
                                return Rc::new(vec![(v, k as u8)]);
                            }
                        }
                        unreachable!()
                    };
                    return Ok((
                        true,
                        true,
                        if holds { None } else { Some(pick(&t)) },
                        if holds { Some(pick(&f)) } else { None },
                    ));
                }
            }
        }
        if holds {
            let n = self.ar.not(c);
            let (r, m) = self.query(st, n);
            match r {
                Res::Unknown => Err(Stop::Incomplete("solver gave up on a branch".into())),
                Res::Sat => Ok((true, true, None, Some(m))),
                Res::Unsat => Ok((true, false, None, None)),
            }
        } else {
            let (r, m) = self.query(st, c);
            match r {
                Res::Unknown => Err(Stop::Incomplete("solver gave up on a branch".into())),
                Res::Sat => Ok((true, true, Some(m), None)),
                Res::Unsat => Ok((false, true, None, None)),
            }
        }
    }

    fn next_forced(&mut self, st: &mut State) -> Option<u64> {
        if st.fpos < st.forced.len() {
            let v = st.forced[st.fpos];
            st.fpos += 1;
            Rc::make_mut(&mut st.decisions).push(v);
            st.cur.push(v);
            Some(v)
        } else {
            None
        }
    }
    fn push_alt(&mut self, st: &State, choice: u64, model: Option<&Rc<Vec<(u32, u8)>>>) {
        let mut s = st.clone();
        let n = s.decisions.len() - s.cur.len();
        Rc::make_mut(&mut s.decisions).truncate(n);
        let mut f = std::mem::take(&mut s.cur);
        f.push(choice);
        s.forced = Rc::new(f);
        s.fpos = 0;
        if let Some(m) = model {
            self.apply_model(&mut s, m);
        }
        self.rep.forks += 1;
        self.work.push(s);
        self.donate();
    }
    fn donate(&mut self) {
        use std::sync::atomic::Ordering::Relaxed;
        if self.work.len() > 1 && self.sh.hungry.load(Relaxed) > 0 {
            let s = self.work.remove(0);
            let mut forced = (*s.decisions).clone();
            forced.extend(&s.forced[s.fpos..]);
            let job = Job { forced, model: (*s.model).clone() };
            let mut q = self.sh.queue.lock().unwrap();
            q.0.push(job);
            self.sh.cv.notify_one();
        }
    }
    fn record(&self, st: &mut State, d: u64) {
        Rc::make_mut(&mut st.decisions).push(d);
        st.cur.push(d);
    }

    /// Decides a symbolic condition, forking the path when both outcomes are feasible.
    fn choose(&mut self, st: &mut State, c: Id) -> R<bool> {
        if c == self.ar.tru {
            return Ok(true);
        }
        if c == self.ar.fls {
            return Ok(false);
        }
        if let Some(d) = self.next_forced(st) {
            let k = if d == 1 { c } else { self.ar.not(c) };
            self.add(st, k);
            return Ok(d == 1);
        }
        let before = c;
        let c = self.narrow(st, c);
        if c == self.ar.tru || c == self.ar.fls {
            let t = c == self.ar.tru;
            self.rep.fast += 1;
            let no = if t { self.ar.not(before) } else { before };
            // The rewriting under byte domains is proved on a sample: the first 2000 uses and one in 32 after them.
            self.nsimp += 1;
            let r = if self.nsimp > 2000 && self.nsimp % 32 != 0 { Res::Unsat } else { self.query(st, no).0 };
            match r {
                Res::Unsat => {}
                Res::Unknown => return Err(Stop::Incomplete("solver gave up on a branch".into())),
                Res::Sat => {
                    eprintln!("pensym: solver contradicts a simplification of {}", self.ar.show(before, 6));
                    std::process::exit(72);
                }
            }
            self.record(st, t as u64);
            return Ok(t);
        }
        let (t, f, mt, mf) = self.both(st, c)?;
        if t && f {
            // continue with the side the current model satisfies
            let side = mt.is_none();
            self.push_alt(st, !side as u64, if side { mf.as_ref() } else { mt.as_ref() });
            self.record(st, side as u64);
            let k = if side { c } else { self.ar.not(c) };
            self.add(st, k);
            Ok(side)
        } else {
            self.record(st, t as u64);
            Ok(t)
        }
    }

    /// Enumerates the feasible values of an expression, one path for each.
    fn concretize(&mut self, st: &mut State, v: V) -> R<u64> {
        let e = match v {
            V::C(c) => return Ok(c),
            V::S(e) => e,
        };
        let w = self.ar.w(e);
        if let Some(c) = self.ar.as_const(e) {
            return Ok(c as u64);
        }
        if w > 64 {
            return Err(Stop::Incomplete("wide value needs a concrete value".into()));
        }
        if let Some(d) = self.next_forced(st) {
            let k = self.ar.konst(w, d as u128);
            let c = self.ar.bin(Op::Eq, e, k);
            self.add(st, c);
            return Ok(d);
        }
        let e = self.narrow(st, e);
        if let Some(c) = self.ar.as_const(e) {
            self.rep.fast += 1;
            self.record(st, c as u64);
            return Ok(c as u64);
        }
        let mut vals: Vec<(u64, Option<Rc<Vec<(u32, u8)>>>)> = vec![];
        let first = self.ar.eval(e, &st.model) as u64;
        vals.push((first, None));
        if let Sup::One(v) = self.ar.sup(e) {
            let t = self.ar.table(e);
            let d = self.domain(st, v);
            let ent = st.ent.get(v as usize).copied().unwrap_or(false) || self.sh.cfg.audit;
            for k in 0..256usize {
                if d[k / 64] >> (k % 64) & 1 == 1 && !vals.iter().any(|x| x.0 == t[k]) {
                    if ent {
                        let kk = self.ar.konst(w, t[k] as u128);
                        let c = self.ar.bin(Op::Eq, e, kk);
                        match self.query(st, c) {
                            (Res::Sat, m) => vals.push((t[k], Some(m))),
                            (Res::Unsat, _) => {}
                            _ => return Err(Stop::Incomplete("solver gave up".into())),
                        }
                    } else {
                        self.rep.fast += 1;
                        vals.push((t[k], Some(Rc::new(vec![(v, k as u8)]))));
                    }
                }
            }
        } else {
            let kk = self.ar.konst(w, first as u128);
            let eq = self.ar.bin(Op::Eq, e, kk);
            let mut rest = self.ar.not(eq);
            loop {
                if vals.len() > self.sh.cfg.concrete_limit {
                    return Err(Stop::Incomplete(format!(
                        "more than {} values for a value that must be concrete",
                        self.sh.cfg.concrete_limit
                    )));
                }
                match self.query(st, rest) {
                    (Res::Unsat, _) => break,
                    (Res::Unknown, _) => return Err(Stop::Incomplete("solver gave up".into())),
                    (Res::Sat, m) => {
                        let mut md = (*st.model).clone();
                        for &(v, x) in m.iter() {
                            if md.len() <= v as usize {
                                md.resize(v as usize + 1, 0)
                            }
                            md[v as usize] = x;
                        }
                        let x = self.ar.eval(e, &md) as u64;
                        vals.push((x, Some(m)));
                        let kk = self.ar.konst(w, x as u128);
                        let eq = self.ar.bin(Op::Eq, e, kk);
                        let ne = self.ar.not(eq);
                        rest = self.ar.bin(Op::And, rest, ne);
                    }
                }
            }
        }
        for (x, m) in vals[1..].iter().rev() {
            self.push_alt(st, *x, m.as_ref());
        }
        self.record(st, first);
        let kk = self.ar.konst(w, first as u128);
        let c = self.ar.bin(Op::Eq, e, kk);
        self.add(st, c);
        Ok(first)
    }

    // ------------------------------------------------------------ memory

    fn fault(&self, what: &str, a: u64, n: u64) -> Stop {
        Stop::Violation("memory".into(), format!("{what} ({n} bytes at object {:#x} offset {:#x})", a >> 32, a & 0xffff_ffff))
    }

    fn locate(&self, st: &State, a: u64, n: u64, align: u32, write: bool) -> R<(u32, usize)> {
        let id = (a >> OBJ_SHIFT) as u32;
        let o = match st.mem.get(id) {
            Some(o) => o,
            None => {
                if id == 0 {
                    return Err(self.fault("null or dangling pointer access", a, n));
                }
                if id < self.m.first_free() {
                    let g = id as usize - 1;
                    if let Some(g) = self.m.globals.get(g) {
                        return Err(Stop::Incomplete(format!("access to external symbol {}", g.name)));
                    }
                    return Err(self.fault("access to function memory", a, n));
                }
                return Err(self.fault("use after free", a, n));
            }
        };
        let off = a.wrapping_sub(o.base);
        if off > o.data.len() as u64 || n > o.data.len() as u64 - off {
            return Err(self.fault(
                &format!("out-of-bounds access to a {} byte {:?} object", o.data.len(), o.kind),
                a,
                n,
            ));
        }
        if write && o.kind == Kind::Const {
            return Err(self.fault("write to constant memory", a, n));
        }
        if align > 1 && a & (align as u64 - 1) != 0 {
            return Err(self.fault(&format!("misaligned access (alignment {align})"), a, n));
        }
        Ok((id, off as usize))
    }

    fn read(&mut self, st: &mut State, a: u64, w: u32, align: u32) -> R<V> {
        let n = w.div_ceil(8) as usize;
        let (id, off) = self.locate(st, a, n as u64, align, false)?;
        if st.conc.is_some() {
            self.race(st, id, off, n, false)?;
        }
        let o = st.mem.get(id).unwrap();
        self.read_obj(o, off, w)
    }
    fn read_obj(&mut self, o: &Obj, off: usize, w: u32) -> R<V> {
        let n = w.div_ceil(8) as usize;
        if !o.has_sym(off, n) && w <= 64 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u64::from_le_bytes(b);
            return Ok(V::C(if w == 64 { v } else { v & ((1u64 << w) - 1) }));
        }
        let mut r: Option<Id> = None;
        for k in 0..n {
            let b = if o.sym.is_empty() || o.sym[off + k] == 0 {
                self.ar.konst(8, o.data[off + k] as u128)
            } else {
                o.sym[off + k]
            };
            r = Some(match r {
                None => b,
                Some(x) => self.ar.bin(Op::Concat, b, x),
            });
        }
        let mut r = r.unwrap();
        if w % 8 != 0 {
            r = self.ar.extract(r, 0, w);
        }
        Ok(self.mk(r))
    }

    fn write(&mut self, st: &mut State, a: u64, v: V, w: u32, align: u32) -> R<()> {
        let n = w.div_ceil(8) as usize;
        let (id, off) = self.locate(st, a, n as u64, align, true)?;
        if st.conc.is_some() {
            self.race(st, id, off, n, true)?;
        }
        let o = st.mem.get_mut(id).unwrap();
        match v {
            V::C(c) => {
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&c.to_le_bytes());
                    o.data[off + 8..off + n].fill(0);
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            V::S(e) => {
                let mut e = e;
                if w % 8 != 0 {
                    e = self.ar.zext(e, n as u32 * 8);
                }
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for k in 0..n {
                    let b = self.ar.extract(e, k as u32 * 8, 8);
                    match self.ar.as_const(b) {
                        Some(c) => {
                            o.data[off + k] = c as u8;
                            o.sym[off + k] = 0;
                        }
                        None => o.sym[off + k] = b,
                    }
                }
            }
        }
        Ok(())
    }

    /// load through a symbolic address
    fn read_sym(&mut self, st: &mut State, e: Id, w: u32, align: u32) -> R<V> {
        let n = w.div_ceil(8) as u64;
        // pick the object from the current model
        let a0 = self.ar.eval(e, &st.model) as u64;
        let id = (a0 >> OBJ_SHIFT) as u32;
        let small = match st.mem.get(id) {
            Some(o) => o.data.len() as u64 >= n && o.data.len() <= 70000,
            None => false,
        };
        // the chosen object depends on the model only for the first worker; a decision list
        // replayed elsewhere carries the model that was used here
        if small && st.conc.is_none() && self.base_obj(e) == Some(id) {
            let (base, len) = {
                let o = st.mem.get(id).unwrap();
                (o.base, o.data.len() as u64)
            };
            let b = self.ar.konst(64, base as u128);
            let off = self.ar.bin(Op::Sub, e, b);
            let lim = self.ar.konst(64, (len - n) as u128);
            let inb = self.ar.bin(Op::Ule, off, lim);
            if self.choose(st, inb)? {
                let mut cands: Vec<u64> = vec![];
                if let Sup::One(v) = self.ar.sup(off) {
                    let t = self.ar.table(off);
                    let d = self.domain(st, v);
                    for k in 0..256usize {
                        if d[k / 64] >> (k % 64) & 1 == 1 && t[k] <= len - n {
                            cands.push(t[k])
                        }
                    }
                    cands.sort_unstable();
                    cands.dedup();
                } else {
                    // stride from trailing zero bits
                    let mut stride = 1u64;
                    if let E::Bin(Op::Concat, _, z) = self.ar.e(off) {
                        if self.ar.as_const(z) == Some(0) {
                            stride = 1 << self.ar.w(z).min(12);
                        }
                    }
                    let mut hi = len - n;
                    if let E::Un(Un::ZExt, x) = self.ar.e(off) {
                        let m = mask(self.ar.w(x)) as u64;
                        hi = hi.min(m);
                    }
                    let mut k = 0;
                    while k <= hi {
                        cands.push(k);
                        k += stride
                    }
                }
                if cands.len() <= 2048 && !cands.is_empty() {
                    let o = st.mem.get(id).unwrap().clone();
                    // group by value
                    let mut groups: Vec<(V, Vec<u64>)> = vec![];
                    for c in cands {
                        let v = self.read_obj(&o, c as usize, w)?;
                        match groups.iter_mut().find(|g| g.0 == v) {
                            Some(g) => g.1.push(c),
                            None => groups.push((v, vec![c])),
                        }
                    }
                    groups.sort_by_key(|g| g.1.len());
                    let last = groups.pop().unwrap().0;
                    let mut r = self.sy(last, w);
                    for (v, offs) in groups {
                        let mut c = self.ar.fls;
                        let mut k = 0;
                        while k < offs.len() {
                            let k64 = self.ar.konst(64, offs[k] as u128);
                            let eq = self.ar.bin(Op::Eq, off, k64);
                            c = self.ar.bin(Op::Or, c, eq);
                            k += 1;
                        }
                        let x = self.sy(v, w);
                        r = self.ar.ite(c, x, r);
                    }
                    let _ = align;
                    return Ok(self.mk(r));
                }
            }
        }
        let a = self.concretize(st, V::S(e))?;
        self.read(st, a, w, align)
    }
    /// the object an address expression is based on, if syntactically evident
    fn base_obj(&self, e: Id) -> Option<u32> {
        match self.ar.e(e) {
            E::Const(c) => {
                let id = (c >> OBJ_SHIFT) as u32;
                if id != 0 && (id as u64) < 0x7fff_ffff {
                    Some(id)
                } else {
                    None
                }
            }
            E::Bin(Op::Add, a, b) => {
                let (x, y) = (self.base_obj(a), self.base_obj(b));
                match (x, y) {
                    (Some(x), None) => Some(x),
                    (None, Some(y)) => Some(y),
                    _ => None,
                }
            }
            E::Bin(Op::Concat, h, _) => {
                let h = self.ar.as_const(h)?;
                if self.ar.w(e) == 64 && self.ar.w(h as Id % 1) == 0 {
                    None
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.locate(st, s, n, 1, false)?;
        let (di, dof) = self.locate(st, d, n, 1, true)?;
        let n = n as usize;
        if st.conc.is_some() {
            self.race(st, si, so, n, false)?;
            self.race(st, di, dof, n, true)?;
        }
        if si == di {
            let o = st.mem.get_mut(di).unwrap();
            o.data.copy_within(so..so + n, dof);
            if !o.sym.is_empty() {
                o.sym.copy_within(so..so + n, dof);
            }
            return Ok(());
        }
        // split borrow through a cheap clone of the source range
        let (buf, sym): ([u8; 64], Option<Vec<Id>>);
        let so_ = st.mem.get(si).unwrap();
        sym = if so_.has_sym(so, n) { Some(so_.sym[so..so + n].to_vec()) } else { None };
        if n <= 64 {
            let mut b = [0u8; 64];
            b[..n].copy_from_slice(&so_.data[so..so + n]);
            buf = b;
            let o = st.mem.get_mut(di).unwrap();
            o.data[dof..dof + n].copy_from_slice(&buf[..n]);
        } else {
            let v = so_.data[so..so + n].to_vec();
            let o = st.mem.get_mut(di).unwrap();
            o.data[dof..dof + n].copy_from_slice(&v);
        }
        let o = st.mem.get_mut(di).unwrap();
        match sym {
            Some(s) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[dof..dof + n].copy_from_slice(&s);
            }
            None => {
                if !o.sym.is_empty() {
                    o.sym[dof..dof + n].fill(0);
                }
            }
        }
        Ok(())
    }

    fn byte_at(&mut self, st: &State, id: u32, off: usize) -> V {
        let o = st.mem.get(id).unwrap();
        if o.sym.is_empty() || o.sym[off] == 0 {
            V::C(o.data[off] as u64)
        } else {
            V::S(o.sym[off])
        }
    }

    /// memcmp-like result as an i32 expression
    fn compare(&mut self, st: &mut State, a: u64, b: u64, n: u64, ordered: bool) -> R<V> {
        if n == 0 {
            return Ok(V::C(0));
        }
        let (ai, ao) = self.locate(st, a, n, 1, false)?;
        let (bi, bo) = self.locate(st, b, n, 1, false)?;
        if st.conc.is_some() {
            self.race(st, ai, ao, n as usize, false)?;
            self.race(st, bi, bo, n as usize, false)?;
        }
        let n = n as usize;
        // concrete fast path up to the first symbolic byte
        if !ordered {
            let mut c = self.ar.tru;
            for k in 0..n {
                match (self.byte_at(st, ai, ao + k), self.byte_at(st, bi, bo + k)) {
                    (V::C(x), V::C(y)) => {
                        if x != y {
                            return Ok(V::C(1));
                        }
                    }
                    (x, y) => {
                        let x = self.sy(x, 8);
                        let y = self.sy(y, 8);
                        let eq = self.ar.bin(Op::Eq, x, y);
                        c = self.ar.bin(Op::And, c, eq);
                        if c == self.ar.fls {
                            return Ok(V::C(1));
                        }
                    }
                }
            }
            let ne = self.ar.not(c);
            let r = self.ar.zext(ne, 32);
            return Ok(self.mk(r));
        }
        let mut r = self.ar.konst(32, 0);
        // find the first definite difference
        let mut end = n;
        for k in 0..n {
            if let (V::C(x), V::C(y)) = (self.byte_at(st, ai, ao + k), self.byte_at(st, bi, bo + k)) {
                if x != y {
                    r = self.ar.konst(32, if x < y { u32::MAX as u128 } else { 1 });
                    end = k;
                    break;
                }
            }
        }
        let one = self.ar.konst(32, 1);
        let neg = self.ar.konst(32, u32::MAX as u128);
        for k in (0..end).rev() {
            let (x, y) = (self.byte_at(st, ai, ao + k), self.byte_at(st, bi, bo + k));
            if let (V::C(_), V::C(_)) = (x, y) {
                continue;
            }
            let x = self.sy(x, 8);
            let y = self.sy(y, 8);
            let eq = self.ar.bin(Op::Eq, x, y);
            let lt = self.ar.bin(Op::Ult, x, y);
            let d = self.ar.ite(lt, neg, one);
            r = self.ar.ite(eq, r, d);
        }
        Ok(self.mk(r))
    }

    // ------------------------------------------------------------ concurrency

    fn race(&mut self, st: &mut State, id: u32, off: usize, n: usize, write: bool) -> R<()> {
        if st.threads.is_empty() || n == 0 {
            return Ok(());
        }
        if let Some(o) = st.mem.get(id) {
            if o.kind == Kind::Const {
                return Ok(());
            }
        }
        let tid = st.tid as u32;
        let vc = st.threads[st.tid].vc.clone();
        let seen = |t: u32, c: u32| t == tid || vc.get(t as usize).copied().unwrap_or(0) >= c;
        let clock = vc.get(st.tid).copied().unwrap_or(0);
        let conc = Rc::make_mut(st.conc.as_mut().unwrap());
        let mut at = off;
        let end = off + n;
        while at < end {
            let cell = at / 8;
            let hi = ((cell + 1) * 8).min(end);
            let mut m = 0u8;
            for b in at..hi {
                m |= 1 << (b % 8)
            }
            let c = conc.cells.entry((id, cell as u32)).or_default();
            for &(t, k, cm) in &c.w {
                if cm & m != 0 && !seen(t, k) {
                    return Err(Stop::Violation(
                        "race".into(),
                        format!("data race: {} unordered with a write by thread {t}", if write { "write" } else { "read" }),
                    ));
                }
            }
            if write {
                for &(t, k, cm) in &c.r {
                    if cm & m != 0 && !seen(t, k) {
                        return Err(Stop::Violation(
                            "race".into(),
                            format!("data race: write (or free) unordered with a read by thread {t}"),
                        ));
                    }
                }
                c.w.retain(|x| x.2 & !m != 0 || x.0 == tid && false);
                c.r.retain(|x| x.2 & !m != 0);
                c.w.push((tid, clock, m));
            } else {
                c.r.retain(|x| !(x.0 == tid && x.2 & !m == 0));
                c.r.push((tid, clock, m));
            }
            at = hi;
        }
        Ok(())
    }

    fn atomic_sync(&mut self, st: &mut State, a: u64, ord: ll::Ord, load: bool, store: bool, rmw: bool) {
        if st.threads.is_empty() {
            return;
        }
        let tid = st.tid;
        let conc = Rc::make_mut(st.conc.as_mut().unwrap());
        let acq = matches!(ord, ll::Ord::Acquire | ll::Ord::AcqRel | ll::Ord::SeqCst);
        let rel = matches!(ord, ll::Ord::Release | ll::Ord::AcqRel | ll::Ord::SeqCst);
        if load {
            if let Some(r) = conc.rel.get(&a) {
                let r = r.clone();
                if acq {
                    vc_join(&mut st.threads[tid].vc, &r);
                } else {
                    vc_join(&mut st.threads[tid].fence_acq, &r);
                }
            }
        }
        if store {
            let t = &mut st.threads[tid];
            let out = if rel { Some(t.vc.clone()) } else { t.fence_rel.clone() };
            match out {
                Some(v) => {
                    let e = conc.rel.entry(a).or_default();
                    if rmw {
                        vc_join(e, &v);
                    } else {
                        *e = v;
                    }
                }
                None => {
                    // a relaxed store starts a new release sequence; a relaxed RMW continues it
                    if !rmw {
                        conc.rel.remove(&a);
                    }
                }
            }
            t.vc[tid] += 1;
        }
    }

    /// Scheduling point before a visible operation. Returns true when control moved elsewhere.
    fn sched_point(&mut self, st: &mut State) -> R<bool> {
        if st.threads.is_empty() {
            return Ok(false);
        }
        if st.yielded {
            st.yielded = false;
            self.stepped(st);
            return Ok(false);
        }
        let mut run = self.others(st);
        if run.is_empty() || st.sched >= self.sh.cfg.preempt {
            st.yielded = false;
            let t = st.tid as u8;
            Rc::make_mut(&mut st.schedule).push(t);
            self.stepped(st);
            return Ok(false);
        }
        run.insert(0, st.tid);
        let k = self.sched_choice(st, run.len())?;
        let t = run[k];
        Rc::make_mut(&mut st.schedule).push(t as u8);
        if t == st.tid {
            self.stepped(st);
            return Ok(false);
        }
        st.sched += 1;
        self.switch_to(st, t);
        st.yielded = true;
        Ok(true)
    }
    /// The other threads that can take a step.
    fn others(&self, st: &State) -> Vec<usize> {
        (0..st.threads.len())
            .filter(|&t| t != st.tid && !st.threads[t].done && !st.threads[t].waiting && !self.join_blocked(st, t))
            .collect()
    }
    /// The current thread takes a step: what the others wait for may have happened.
    fn stepped(&mut self, st: &mut State) {
        for t in 0..st.threads.len() {
            if t != st.tid {
                st.threads[t].waiting = false;
            }
        }
    }
    /// A thread spins, yields or sleeps: it goes on when another one took a step. Returns true when control moved.
    fn wait_point(&mut self, st: &mut State) -> R<bool> {
        if st.threads.is_empty() {
            return Ok(false);
        }
        if st.yielded {
            st.yielded = false;
            return Ok(false);
        }
        let run = self.others(st);
        if run.is_empty() {
            let t = st.tid as u8;
            Rc::make_mut(&mut st.schedule).push(t);
            return Ok(false);
        }
        let k = self.sched_choice(st, run.len())?;
        let t = run[k];
        Rc::make_mut(&mut st.schedule).push(t as u8);
        let tid = st.tid;
        st.threads[tid].waiting = true;
        self.switch_to(st, t);
        st.yielded = true;
        Ok(true)
    }
    fn join_blocked(&self, st: &State, t: usize) -> bool {
        st.threads[t].blocked_join
            && st.threads.iter().enumerate().any(|(k, x)| k != t && !x.done)
    }
    /// the schedule is a symbolic byte like any other input
    fn sched_choice(&mut self, st: &mut State, n: usize) -> R<usize> {
        if n <= 1 {
            return Ok(0);
        }
        if let Some(d) = self.next_forced(st) {
            return Ok(d as usize);
        }
        for k in (1..n).rev() {
            self.push_alt(st, k as u64, None);
        }
        self.record(st, 0);
        Ok(0)
    }
    fn switch_to(&mut self, st: &mut State, t: usize) {
        let cur = st.tid;
        std::mem::swap(&mut st.threads[cur].frames, &mut st.frames);
        std::mem::swap(&mut st.threads[t].frames, &mut st.frames);
        st.tid = t;
    }

    // ------------------------------------------------------------ running

    fn func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.funcs[id as usize] {
            return Some(f);
        }
        let f = self.m.func(id)?;
        self.funcs[id as usize] = Some(f);
        self.rep.fns.insert(id);
        Some(f)
    }

    pub fn start(&mut self, entry: u32) -> State {
        let mut st = self.init.clone();
        let f = self.func(entry).expect("entry");
        st.frames.push(Rc::new(Frame {
            func: f,
            fid: entry,
            regs: vec![V::C(0); f.nregs as usize],
            pc: 0,
            allocas: vec![],
            ret_dst: 0,
        }));
        st
    }

    pub fn run(&mut self, mut st: State) {
        let stop = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
        };
        self.finish(st, stop);
    }

    fn location(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(24)
            .map(|f| self.m.fns[f.fid as usize].name.clone())
            .collect()
    }

    fn full_model(&self, st: &State) -> Vec<u8> {
        let mut m = (*st.model).clone();
        m.resize(st.nvars as usize, 0);
        m
    }

    fn violation(&mut self, st: &State, kind: &str, msg: &str, loc: &str) {
        let stack = self.location(st);
        let key = format!("{kind}|{msg}|{loc}");
        let v = Viol {
            kind: kind.into(),
            msg: msg.into(),
            loc: loc.into(),
            stack,
            model: self.full_model(st),
            schedule: (*st.schedule).clone(),
            count: 1,
        };
        if self.sh.cfg.verbose {
            eprintln!("violation {key} input={:?}", String::from_utf8_lossy(&v.model));
        }
        let mut r = self.sh.report.lock().unwrap();
        match r.viols.get_mut(&key) {
            Some(x) => {
                x.count += 1;
                if (v.model.len(), &v.model) < (x.model.len(), &x.model) {
                    let c = x.count;
                    *x = v;
                    x.count = c;
                }
            }
            None => {
                r.viols.insert(key, v);
                if r.viols.len() >= self.sh.cfg.max_viol {
                    self.sh.stop.store(true, std::sync::atomic::Ordering::Relaxed);
                }
            }
        }
    }

    fn finish(&mut self, st: State, s: Stop) {
        self.rep.insts += st.insts;
        self.rep.maxvars = self.rep.maxvars.max(st.nvars);
        let n = self.sh.npaths.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if n >= self.sh.cfg.max_paths {
            self.sh.stop.store(true, std::sync::atomic::Ordering::Relaxed);
            self.rep.timeout = true;
        }
        let outcome;
        match s {
            Stop::End(true) => {
                self.rep.paths += 1;
                outcome = "ok".to_string();
            }
            Stop::End(false) => {
                self.rep.cut += 1;
                return;
            }
            Stop::Violation(k, m) if k == "panic" && st.expect_panic => {
                let _ = m;
                self.rep.paths += 1;
                self.rep.ended_panic += 1;
                outcome = "expected-panic".to_string();
            }
            Stop::Violation(k, m) => {
                self.rep.paths += 1;
                let (msg, loc) = match m.split_once('\u{1}') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (
                        m.clone(),
                        self.location(&st).into_iter().next().unwrap_or_default(),
                    ),
                };
                self.violation(&st, &k, &msg, &loc);
                outcome = k;
            }
            Stop::Incomplete(m) => {
                if self.sh.cfg.verbose {
                    eprintln!("incomplete: {m} at {:#?}", self.location(&st));
                }
                *self.rep.incomplete.entry(m).or_default() += 1;
                return;
            }
        }
        for &c in st.covers.iter() {
            *self.rep.covers.entry(c).or_default() += 1;
        }
        // final confirmation of the whole path condition by the solver, and a sample trace
        let take = self.rep.traces.len() < self.sh.cfg.traces
            || (self.rep.paths.wrapping_mul(0x9e3779b97f4a7c15) >> 40) % (self.rep.paths + 1) < self.sh.cfg.traces as u64;
        if take && self.sh.cfg.traces > 0 {
            let model = self.full_model(&st);
            let mut h = 0xcbf29ce484222325u64;
            for v in st.observed.iter() {
                let x = match v {
                    V::C(c) => *c,
                    V::S(e) => self.ar.eval(*e, &model) as u64,
                };
                for b in x.to_le_bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
            }
            let mut cv: Vec<u32> = st.covers.iter().copied().collect();
            cv.sort();
            cv.dedup();
            let t = Trace { model, schedule: (*st.schedule).clone(), outcome, hash: h, covers: cv };
            if self.rep.traces.len() < self.sh.cfg.traces {
                self.rep.traces.push(t);
            } else {
                let k = (self.rep.paths as usize).wrapping_mul(7919) % self.rep.traces.len();
                self.rep.traces[k] = t;
            }
        }
    }

    #[inline]
    fn jump(&mut self, st: &mut State, e: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let edge = &fr.func.edges[e as usize];
        match edge.moves.len() {
            0 => {}
            1 => {
                let (d, o, n) = edge.moves[0];
                if n == 1 {
                    let v = self.get(fr, o, 0);
                    fr.regs[d as usize] = v;
                } else {
                    let t: Vec<V> = (0..n).map(|k| self.get(fr, o, k)).collect();
                    fr.regs[d as usize..(d + n) as usize].copy_from_slice(&t);
                }
            }
            _ => {
                let mut t: Vec<V> = Vec::with_capacity(edge.moves.len());
                for &(_, o, n) in edge.moves.iter() {
                    for k in 0..n {
                        t.push(self.get(fr, o, k))
                    }
                }
                let mut i = 0;
                for &(d, _, n) in edge.moves.iter() {
                    for k in 0..n {
                        fr.regs[(d + k) as usize] = t[i];
                        i += 1;
                    }
                }
            }
        }
        fr.pc = edge.target;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.insts += 1;
        st.cur.clear();
        self.ticks = self.ticks.wrapping_add(1);
        if self.ticks & 0xffff == 0 {
            if self.sh.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return Err(Stop::Incomplete("stopped".into()));
            }
            if self.sh.start.elapsed().as_secs_f64() > self.sh.cfg.time {
                self.rep.timeout = true;
                self.sh.stop.store(true, std::sync::atomic::Ordering::Relaxed);
                return Err(Stop::Incomplete("time limit".into()));
            }
            if st.insts > self.sh.cfg.max_insts {
                return Err(Stop::Violation(
                    "divergence".into(),
                    format!("more than {} instructions on one path", self.sh.cfg.max_insts),
                ));
            }
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let func = fr.func;
        let inst = &func.code[fr.pc as usize];
        if self.sh.cfg.trace {
            let regs: Vec<String> = fr.regs.iter().enumerate().map(|(k, v)| match v {
                V::C(c) => format!("{k}={c:x}"),
                V::S(_) => format!("{k}=?"),
            }).collect();
            eprintln!("{}:{} {:?} [{}]", self.m.fns[fr.fid as usize].name, fr.pc, inst, regs.join(" "));
        }
        match inst {
            Inst::GepC { dst, ptr, off } => {
                let v = match self.get(fr, *ptr, 0) {
                    V::C(a) => V::C(a.wrapping_add(*off)),
                    V::S(e) => {
                        let k = self.ar.konst(64, *off as u128);
                        let r = self.ar.bin(Op::Add, e, k);
                        self.mk(r)
                    }
                };
                fr.regs[*dst as usize] = v;
                fr.pc += 1;
            }
            Inst::Load { dst, ptr, w, align, ord } => {
                let p = self.get(fr, *ptr, 0);
                if *ord != ll::Ord::NotAtomic && !st.threads.is_empty() {
                    if self.sched_point(st)? {
                        return Ok(());
                    }
                    if let V::C(a) = p {
                        self.atomic_sync(st, a, *ord, true, false, false);
                        let save = st.conc.take();
                        let v = self.read(st, a, *w, *align);
                        st.conc = save;
                        let v = v?;
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        fr.regs[*dst as usize] = v;
                        fr.pc += 1;
                        return Ok(());
                    }
                }
                let v = match p {
                    V::C(a) => self.read(st, a, *w, *align)?,
                    V::S(e) => self.read_sym(st, e, *w, *align)?,
                };
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[*dst as usize] = v;
                fr.pc += 1;
            }
            Inst::Store { ptr, val, w, align, ord } => {
                let p = self.get(fr, *ptr, 0);
                let v = self.get(fr, *val, 0);
                let v = self.wide0(v, *w);
                if *ord != ll::Ord::NotAtomic && !st.threads.is_empty() {
                    if self.sched_point(st)? {
                        return Ok(());
                    }
                    if let V::C(a) = p {
                        self.atomic_sync(st, a, *ord, false, true, false);
                        let save = st.conc.take();
                        let r = self.write(st, a, v, *w, *align);
                        st.conc = save;
                        r?;
                        Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                        return Ok(());
                    }
                }
                let a = self.concretize(st, p)?;
                self.write(st, a, v, *w, *align)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
            }
            Inst::LoadM { dst, ptr, leaves, align } => {
                let p = self.get(fr, *ptr, 0);
                let a = self.concretize(st, p)?;
                let bits: u32 = leaves.iter().map(|l| l.1).sum();
                if bit_vector(leaves) {
                    self.locate(st, a, bits as u64 / 8, *align, false)?;
                    for k in 0..leaves.len() / 8 {
                        let b = self.read(st, a + k as u64, 8, 1)?;
                        let b = self.sy(b, 8);
                        for j in 0..8 {
                            let r = self.ar.extract(b, j, 1);
                            let v = self.mk(r);
                            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                            fr.regs[*dst as usize + k * 8 + j as usize] = v;
                        }
                    }
                    Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                    return Ok(());
                }
                if leaves.iter().any(|l| l.1 % 8 != 0) {
                    return Err(Stop::Incomplete("vector of odd-width integers in memory".into()));
                }
                self.locate(st, a, bits as u64 / 8, *align, false)?;
                for (k, &(o, w)) in leaves.iter().enumerate() {
                    let v = self.read(st, a + o as u64, w, 1)?;
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    fr.regs[*dst as usize + k] = v;
                }
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
            }
            Inst::StoreM { ptr, val, leaves, align } => {
                let p = self.get(fr, *ptr, 0);
                let vs: Vec<V> = (0..leaves.len() as u32).map(|k| self.get(fr, *val, k)).collect();
                let a = self.concretize(st, p)?;
                if bit_vector(leaves) {
                    self.locate(st, a, leaves.len() as u64 / 8, *align, true)?;
                    for (k, x) in vs.chunks(8).enumerate() {
                        let mut r = self.sy(x[0], 1);
                        for &y in &x[1..] {
                            let y = self.sy(y, 1);
                            r = self.ar.bin(Op::Concat, y, r);
                        }
                        let v = self.mk(r);
                        self.write(st, a + k as u64, v, 8, 1)?;
                    }
                    Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                    return Ok(());
                }
                if leaves.iter().any(|l| l.1 % 8 != 0) {
                    return Err(Stop::Incomplete("vector of odd-width integers in memory".into()));
                }
                if !leaves.is_empty() {
                    self.locate(st, a, 1, *align, true)?;
                }
                for (v, &(o, w)) in vs.iter().zip(leaves.iter()) {
                    let v = self.wide0(*v, w);
                    self.write(st, a + o as u64, v, w, 1)?;
                }
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
            }
            Inst::Bin { op, w, n, dst, a, b } => {
                if *n == 1 {
                    let x = self.get(fr, *a, 0);
                    let y = self.get(fr, *b, 0);
                    let r = self.binop(*op, *w, x, y)?;
                    fr.regs[*dst as usize] = r;
                } else {
                    for k in 0..*n {
                        let x = self.get(fr, *a, k);
                        let y = self.get(fr, *b, k);
                        let r = self.binop(*op, *w, x, y)?;
                        fr.regs[(*dst + k) as usize] = r;
                    }
                }
                fr.pc += 1;
            }
            Inst::Cmp { p, w, n, dst, a, b } => {
                for k in 0..*n {
                    let x = self.get(fr, *a, k);
                    let y = self.get(fr, *b, k);
                    let r = self.cmp(*p, *w, x, y);
                    fr.regs[(*dst + k) as usize] = r;
                }
                fr.pc += 1;
            }
            Inst::Br { e } => {
                let e = *e;
                self.jump(st, e);
            }
            Inst::CondBr { c, t, f } => {
                let v = self.get(fr, *c, 0);
                let side = match v {
                    V::C(x) => x & 1 == 1,
                    V::S(e) => self.choose(st, e)?,
                };
                self.jump(st, if side { *t } else { *f });
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.get(fr, *v, 0);
                match x {
                    V::C(x) => {
                        let mut e = *def;
                        for &(k, t) in cases.iter() {
                            if k == x {
                                e = t;
                                break;
                            }
                        }
                        self.jump(st, e);
                    }
                    V::S(x) => {
                        let mut groups: Vec<(u32, u32, Id)> = vec![];
                        for &(k, t) in cases.iter() {
                            let kk = self.ar.konst(*w, k as u128);
                            let eq = self.ar.bin(Op::Eq, x, kk);
                            let tgt = func.edges[t as usize].target;
                            let simple = func.edges[t as usize].moves.is_empty();
                            match groups.iter_mut().find(|g| simple && g.1 == tgt) {
                                Some(g) => g.2 = self.ar.bin(Op::Or, g.2, eq),
                                None => groups.push((t, if simple { tgt } else { u32::MAX }, eq)),
                            }
                        }
                        let deft = func.edges[*def as usize].target;
                        let defs = func.edges[*def as usize].moves.is_empty();
                        let mut dest = *def;
                        for (e, tgt, c) in groups {
                            if defs && tgt == deft {
                                continue;
                            }
                            if self.choose(st, c)? {
                                dest = e;
                                break;
                            }
                        }
                        self.jump(st, dest);
                    }
                }
            }
            Inst::Gep { dst, ptr, off, idx } => {
                let mut v = self.get(fr, *ptr, 0);
                let add = |s: &mut Self, x: V, y: V| -> V {
                    match (x, y) {
                        (V::C(a), V::C(b)) => V::C(a.wrapping_add(b)),
                        _ => {
                            let a = s.sy(x, 64);
                            let b = s.sy(y, 64);
                            let r = s.ar.bin(Op::Add, a, b);
                            s.mk(r)
                        }
                    }
                };
                v = add(self, v, V::C(*off));
                for &(o, w, sc) in idx.iter() {
                    let i = self.get(fr, o, 0);
                    let t = match i {
                        V::C(c) => V::C((sext(c as u128, w) as i64 as u64).wrapping_mul(sc)),
                        V::S(e) => {
                            let x = self.ar.un(Un::SExt, e, 64);
                            let k = self.ar.konst(64, sc as u128);
                            let r = self.ar.bin(Op::Mul, x, k);
                            self.mk(r)
                        }
                    };
                    v = add(self, v, t);
                }
                fr.regs[*dst as usize] = v;
                fr.pc += 1;
            }
            Inst::Alloca { dst, size, align, count } => {
                let n = match self.get(fr, *count, 0) {
                    V::C(n) => n,
                    V::S(_) => return Err(Stop::Incomplete("symbolic alloca".into())),
                };
                let a = st.mem.alloc(size * n, *align as u64, Kind::Stack, 0xa5);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push((a >> OBJ_SHIFT) as u32);
                fr.regs[*dst as usize] = V::C(a);
                fr.pc += 1;
            }
            Inst::Select { dst, c, a, b, n, veccond, leaves } => {
                let mut certify = vec![];
                let mut cv = self.get(fr, *c, 0);
                for k in 0..*n {
                    if *veccond {
                        cv = self.get(fr, *c, k);
                    }
                    let r = match cv {
                        V::C(x) => {
                            if x & 1 == 1 {
                                self.get(fr, *a, k)
                            } else {
                                self.get(fr, *b, k)
                            }
                        }
                        V::S(e) => {
                            let x = self.get(fr, *a, k);
                            let y = self.get(fr, *b, k);
                            let decided = match self.ar.sup(e) {
                                Sup::One(v) if x != y && !self.sh.cfg.audit => {
                                    let t = self.ar.bits(e);
                                    let d = st.dom.get(v as usize).copied().unwrap_or([!0; 4]);
                                    let some = (0..4).any(|k| d[k] & t[k] != 0);
                                    let other = (0..4).any(|k| d[k] & !t[k] != 0);
                                    if some && other {
                                        None
                                    } else {
                                        self.rep.fast += 1;
                                        certify.push((v, e));
                                        Some(some)
                                    }
                                }
                                _ => None,
                            };
                            if x == y || decided == Some(true) {
                                x
                            } else if decided == Some(false) {
                                y
                            } else {
                                let w = leaves[k as usize].1;
                                let x = self.sy(x, w);
                                let y = self.sy(y, w);
                                let r = self.ar.ite(e, x, y);
                                self.mk(r)
                            }
                        }
                    };
                    fr.regs[(*dst + k) as usize] = r;
                }
                fr.pc += 1;
                for (v, e) in certify {
                    self.certify(v, e)?;
                }
            }
            Inst::Cast { op, dst, a, wi, wo, n } => {
                for k in 0..*n {
                    let x = self.get(fr, *a, k);
                    let r = self.cast(*op, x, *wi, *wo);
                    fr.regs[(*dst + k) as usize] = r;
                }
                fr.pc += 1;
            }
            Inst::Bitcast { dst, a, wi, ni, wo, no } => {
                if ni == no {
                    for k in 0..*ni {
                        let x = self.get(fr, *a, k);
                        fr.regs[(*dst + k) as usize] = x;
                    }
                } else {
                    // concatenate all lanes (lane 0 lowest), then split; at most 512 bits, lane-wise
                    let xs: Vec<V> = (0..*ni).map(|k| self.get(fr, *a, k)).collect();
                    if *wo >= *wi {
                        let per = *wo / *wi;
                        for k in 0..*no {
                            let mut r: Option<Id> = None;
                            let mut conc: u64 = 0;
                            let mut all = *wo <= 64;
                            for j in 0..per {
                                match xs[(k * per + j) as usize] {
                                    V::C(c) if all => {
                                        conc |= c << (j * *wi)
                                    }
                                    _ => all = false,
                                }
                            }
                            if all {
                                fr.regs[(*dst + k) as usize] = V::C(conc);
                                continue;
                            }
                            for j in 0..per {
                                let x = self.sy(xs[(k * per + j) as usize], *wi);
                                r = Some(match r {
                                    None => x,
                                    Some(l) => self.ar.bin(Op::Concat, x, l),
                                });
                            }
                            fr.regs[(*dst + k) as usize] = self.mk(r.unwrap());
                        }
                    } else {
                        let per = *wi / *wo;
                        for k in 0..*ni {
                            let x = self.sy(xs[k as usize], *wi);
                            for j in 0..per {
                                let r = self.ar.extract(x, j * *wo, *wo);
                                fr.regs[(*dst + k * per + j) as usize] = self.mk(r);
                            }
                        }
                    }
                }
                fr.pc += 1;
            }
            Inst::FNeg { dst, a, w, n } => {
                for k in 0..*n {
                    let x = self.get(fr, *a, k);
                    let r = match x {
                        V::C(c) => V::C(c ^ (1 << (*w - 1))),
                        V::S(e) => {
                            let m = self.ar.konst(*w, 1 << (*w - 1));
                            let r = self.ar.bin(Op::Xor, e, m);
                            self.mk(r)
                        }
                    };
                    fr.regs[(*dst + k) as usize] = r;
                }
                fr.pc += 1;
            }
            Inst::Move { dst, a, from, n } => {
                for k in 0..*n {
                    let x = self.get(fr, *a, *from + k);
                    fr.regs[(*dst + k) as usize] = x;
                }
                fr.pc += 1;
            }
            Inst::InsertV { dst, agg, total, at, val, n } => {
                for k in 0..*total {
                    let x = if k >= *at && k < *at + *n {
                        self.get(fr, *val, k - *at)
                    } else {
                        self.get(fr, *agg, k)
                    };
                    fr.regs[(*dst + k) as usize] = x;
                }
                fr.pc += 1;
            }
            Inst::ExtractE { dst, v, n, idx, w } => {
                let i = self.get(fr, *idx, 0);
                let r = match i {
                    V::C(i) => self.get(fr, *v, (i as u32).min(*n - 1)),
                    V::S(e) => {
                        let mut r = self.get(fr, *v, 0);
                        for k in 1..*n {
                            let kk = self.ar.konst(self.ar.w(e), k as u128);
                            let c = self.ar.bin(Op::Eq, e, kk);
                            let x = self.get(fr, *v, k);
                            let x = self.sy(x, *w);
                            let y = self.sy(r, *w);
                            let t = self.ar.ite(c, x, y);
                            r = self.mk(t);
                        }
                        r
                    }
                };
                fr.regs[*dst as usize] = r;
                fr.pc += 1;
            }
            Inst::InsertE { dst, v, n, val, idx } => {
                let i = match self.get(fr, *idx, 0) {
                    V::C(i) => i as u32,
                    V::S(_) => return Err(Stop::Incomplete("symbolic insertelement".into())),
                };
                let x = self.get(fr, *val, 0);
                for k in 0..*n {
                    let y = if k == i { x } else { self.get(fr, *v, k) };
                    fr.regs[(*dst + k) as usize] = y;
                }
                fr.pc += 1;
            }
            Inst::Shuffle { dst, a, b, n, mask } => {
                let mut out = Vec::with_capacity(mask.len());
                for &m in mask.iter() {
                    let m = m.max(0) as u32;
                    out.push(if m < *n { self.get(fr, *a, m) } else { self.get(fr, *b, m - *n) });
                }
                fr.regs[*dst as usize..*dst as usize + out.len()].copy_from_slice(&out);
                fr.pc += 1;
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Ret { v, n } => {
                let n = *n;
                let mut small = [V::C(0); 4];
                let mut big = vec![];
                if n <= 4 {
                    for k in 0..n {
                        small[k as usize] = self.get(fr, *v, k)
                    }
                } else {
                    big = (0..n).map(|k| self.get(fr, *v, k)).collect();
                }
                let done = st.frames.pop().unwrap();
                for &a in &done.allocas {
                    st.mem.free(a);
                }
                let dst = done.ret_dst;
                drop(done);
                match st.frames.last_mut() {
                    None => return self.thread_end(st),
                    Some(f) => {
                        let f = Rc::make_mut(f);
                        for k in 0..n {
                            f.regs[(dst + k) as usize] =
                                if n <= 4 { small[k as usize] } else { big[k as usize] };
                        }
                        // finish the pending call
                        if let Inst::Call(c) = &f.func.code[f.pc as usize] {
                            match c.normal {
                                Some(e) => self.jump(st, e),
                                None => f.pc += 1,
                            }
                        }
                    }
                }
            }
            Inst::Unreachable => {
                return Err(Stop::Violation("undefined".into(), "unreachable code reached".into()))
            }
            Inst::Rmw { op, dst, ptr, v, w, ord } => {
                let p = self.get(fr, *ptr, 0);
                let x = self.get(fr, *v, 0);
                if self.sched_point(st)? {
                    return Ok(());
                }
                let a = self.concretize(st, p)?;
                self.atomic_sync(st, a, *ord, true, true, true);
                let save = st.conc.take();
                let r = (|| {
                    let old = self.read(st, a, *w, *w / 8)?;
                    let new = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => self.binop(BinOp::Add, *w, old, x)?,
                        RmwOp::Sub => self.binop(BinOp::Sub, *w, old, x)?,
                        RmwOp::And => self.binop(BinOp::And, *w, old, x)?,
                        RmwOp::Or => self.binop(BinOp::Or, *w, old, x)?,
                        RmwOp::Xor => self.binop(BinOp::Xor, *w, old, x)?,
                        RmwOp::Nand => {
                            let t = self.binop(BinOp::And, *w, old, x)?;
                            self.binop(BinOp::Xor, *w, t, V::C(mask(*w) as u64))?
                        }
                        RmwOp::UMax => self.minmax(Op::Ult, *w, x, old, true),
                        RmwOp::UMin => self.minmax(Op::Ult, *w, old, x, false),
                        RmwOp::Max => self.minmax(Op::Slt, *w, x, old, true),
                        RmwOp::Min => self.minmax(Op::Slt, *w, old, x, false),
                    };
                    self.write(st, a, new, *w, *w / 8)?;
                    Ok(old)
                })();
                st.conc = save;
                let old = r?;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[*dst as usize] = old;
                fr.pc += 1;
            }
            Inst::CmpXchg { dst, ptr, cmp, new, w, ord, ford, weak: _ } => {
                let p = self.get(fr, *ptr, 0);
                let c = self.get(fr, *cmp, 0);
                let nv = self.get(fr, *new, 0);
                if self.sched_point(st)? {
                    return Ok(());
                }
                let a = self.concretize(st, p)?;
                let save = st.conc.take();
                let old = self.read(st, a, *w, *w / 8);
                st.conc = save;
                let old = old?;
                let eq = self.cmp(Pred::Eq, *w, old, c);
                let ok = match eq {
                    V::C(x) => x == 1,
                    V::S(e) => self.choose(st, e)?,
                };
                if ok {
                    self.atomic_sync(st, a, *ord, true, true, true);
                    let save = st.conc.take();
                    let r = self.write(st, a, nv, *w, *w / 8);
                    st.conc = save;
                    r?;
                } else {
                    self.atomic_sync(st, a, *ford, true, false, false);
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[*dst as usize] = old;
                fr.regs[*dst as usize + 1] = V::C(ok as u64);
                fr.pc += 1;
            }
            Inst::Fence { ord } => {
                if !st.threads.is_empty() {
                    let t = &mut st.threads[st.tid];
                    if matches!(ord, ll::Ord::Acquire | ll::Ord::AcqRel | ll::Ord::SeqCst) {
                        let f = t.fence_acq.clone();
                        vc_join(&mut t.vc, &f);
                    }
                    if matches!(ord, ll::Ord::Release | ll::Ord::AcqRel | ll::Ord::SeqCst) {
                        t.fence_rel = Some(t.vc.clone());
                        let k = st.tid;
                        t.vc[k] += 1;
                    }
                }
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
            }
            Inst::Landing | Inst::Resume => {
                return Err(Stop::Incomplete("unwinding reached".into()))
            }
            Inst::Unsupported(s) => {
                return Err(Stop::Incomplete(format!("unsupported instruction: {}", s.trim())))
            }
        }
        Ok(())
    }

    fn thread_end(&mut self, st: &mut State) -> R<()> {
        if st.threads.is_empty() {
            return Err(Stop::End(true));
        }
        let tid = st.tid;
        st.threads[tid].done = true;
        if tid == 0 {
            return Err(Stop::End(true));
        }
        let run: Vec<usize> = (0..st.threads.len())
            .filter(|&t| !st.threads[t].done && !self.join_blocked(st, t))
            .collect();
        if run.is_empty() {
            return Err(Stop::Violation("deadlock".into(), "no runnable thread".into()));
        }
        self.stepped(st);
        // which thread runs next is a free choice, made at the next visible operation of it
        st.frames.clear();
        let t = run[0];
        Rc::make_mut(&mut st.schedule).push(t as u8);
        st.frames = std::mem::take(&mut st.threads[t].frames);
        st.tid = t;
        if t == 0 || st.threads[t].blocked_join {
            let clocks: Vec<Vec<u32>> = st.threads.iter().map(|t| t.vc.clone()).collect();
            for c in clocks {
                vc_join(&mut st.threads[t].vc, &c);
            }
        }
        Ok(())
    }

    fn minmax(&mut self, op: Op, w: u32, a: V, b: V, max: bool) -> V {
        let x = self.sy(a, w);
        let y = self.sy(b, w);
        let c = self.ar.bin(op, x, y);
        let r = if max { self.ar.ite(c, y, x) } else { self.ar.ite(c, x, y) };
        self.mk(r)
    }

    fn binop(&mut self, op: BinOp, w: u32, x: V, y: V) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
                let r = match op {
                    BinOp::Add => a.wrapping_add(b) & m,
                    BinOp::Sub => a.wrapping_sub(b) & m,
                    BinOp::Mul => a.wrapping_mul(b) & m,
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                    BinOp::Shl if b < w as u64 => (a << b) & m,
                    BinOp::LShr if b < w as u64 => a >> b,
                    BinOp::UDiv if b != 0 => a / b,
                    BinOp::URem if b != 0 => a % b,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if b == 0 => {
                        return Err(Stop::Violation("undefined".into(), "division by zero".into()))
                    }
                    _ => eval_bin(self.bop(op), w, w, a as u128, b as u128) as u64,
                };
                return Ok(V::C(r));
            }
        }
        let a = self.sy(x, w);
        let b = self.sy(y, w);
        if matches!(op, BinOp::FRem) {
            if let (Some(p), Some(q)) = (self.ar.as_const(a), self.ar.as_const(b)) {
                let r = self.ar.konst(w, fp_bin(Op::FRem, w, p, q));
                return Ok(self.mk(r));
            }
            return Err(Stop::Incomplete("symbolic floating-point remainder".into()));
        }
        let o = self.bop(op);
        let r = self.ar.bin(o, a, b);
        Ok(self.mk(r))
    }
    fn bop(&self, op: BinOp) -> Op {
        match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => Op::FRem,
        }
    }

    fn cmp(&mut self, p: Pred, w: u32, x: V, y: V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 && (p as u32) <= Pred::Sle as u32 {
                let (sa, sb) = (sext(a as u128, w) as i64, sext(b as u128, w) as i64);
                return V::C(match p {
                    Pred::Eq => a == b,
                    Pred::Ne => a != b,
                    Pred::Ugt => a > b,
                    Pred::Uge => a >= b,
                    Pred::Ult => a < b,
                    Pred::Ule => a <= b,
                    Pred::Sgt => sa > sb,
                    Pred::Sge => sa >= sb,
                    Pred::Slt => sa < sb,
                    _ => sa <= sb,
                } as u64);
            }
        }
        let a = self.sy(x, w);
        let b = self.sy(y, w);
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.bin(Op::Eq, a, b),
            Pred::Ne => {
                let t = ar.bin(Op::Eq, a, b);
                ar.not(t)
            }
            Pred::Ugt => ar.bin(Op::Ult, b, a),
            Pred::Uge => ar.bin(Op::Ule, b, a),
            Pred::Ult => ar.bin(Op::Ult, a, b),
            Pred::Ule => ar.bin(Op::Ule, a, b),
            Pred::Sgt => ar.bin(Op::Slt, b, a),
            Pred::Sge => ar.bin(Op::Sle, b, a),
            Pred::Slt => ar.bin(Op::Slt, a, b),
            Pred::Sle => ar.bin(Op::Sle, a, b),
            Pred::FFalse => ar.fls,
            Pred::FTrue => ar.tru,
            _ => {
                let un = ar.bin(Op::FUno, a, b);
                let or = |ar: &mut Arena, t: Id| ar.bin(Op::Or, un, t);
                match p {
                    Pred::FOeq => ar.bin(Op::FEq, a, b),
                    Pred::FOgt => ar.bin(Op::FLt, b, a),
                    Pred::FOge => ar.bin(Op::FLe, b, a),
                    Pred::FOlt => ar.bin(Op::FLt, a, b),
                    Pred::FOle => ar.bin(Op::FLe, a, b),
                    Pred::FOne => {
                        let t = ar.bin(Op::FLt, a, b);
                        let u = ar.bin(Op::FLt, b, a);
                        ar.bin(Op::Or, t, u)
                    }
                    Pred::FOrd => ar.not(un),
                    Pred::FUno => un,
                    Pred::FUeq => {
                        let t = ar.bin(Op::FEq, a, b);
                        or(ar, t)
                    }
                    Pred::FUgt => {
                        let t = ar.bin(Op::FLt, b, a);
                        or(ar, t)
                    }
                    Pred::FUge => {
                        let t = ar.bin(Op::FLe, b, a);
                        or(ar, t)
                    }
                    Pred::FUlt => {
                        let t = ar.bin(Op::FLt, a, b);
                        or(ar, t)
                    }
                    Pred::FUle => {
                        let t = ar.bin(Op::FLe, a, b);
                        or(ar, t)
                    }
                    _ => {
                        let t = ar.bin(Op::FEq, a, b);
                        ar.not(t)
                    }
                }
            }
        };
        self.mk(r)
    }

    fn cast(&mut self, op: Cast, x: V, wi: u32, wo: u32) -> V {
        if let V::C(c) = x {
            if wi <= 64 && wo <= 64 {
                let m = if wo == 64 { !0u64 } else { (1u64 << wo) - 1 };
                match op {
                    Cast::Same | Cast::ZExt => return V::C(c),
                    Cast::Trunc => return V::C(c & m),
                    Cast::SExt => return V::C(sext(c as u128, wi) as u64 & m),
                    _ => {}
                }
            }
        }
        let e = self.sy(x, wi);
        let r = match op {
            Cast::Same => e,
            Cast::Trunc => self.ar.extract(e, 0, wo),
            Cast::ZExt => self.ar.zext(e, wo),
            Cast::SExt => self.ar.un(Un::SExt, e, wo),
            Cast::FpToUi => self.ar.un(Un::FToUI, e, wo),
            Cast::FpToSi => self.ar.un(Un::FToSI, e, wo),
            Cast::UiToFp => self.ar.un(Un::UIToF, e, wo),
            Cast::SiToFp => self.ar.un(Un::SIToF, e, wo),
            Cast::FpExt => self.ar.un(Un::FExt, e, wo),
            Cast::FpTrunc => self.ar.un(Un::FTrunc, e, wo),
        };
        self.mk(r)
    }

    // ------------------------------------------------------------ calls

    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        let fr = st.frames.last().unwrap().clone();
        let fid = match &c.callee {
            Callee::Func(f) => *f,
            Callee::Dyn(o) => {
                let v = self.get(&fr, *o, 0);
                let a = self.concretize(st, v)?;
                match self.m.addr_fn(a) {
                    Some(f) => f,
                    None => {
                        return Err(Stop::Violation(
                            "memory".into(),
                            format!("call of a pointer that is not a function ({a:#x})"),
                        ))
                    }
                }
            }
            // an x86 processor without optional features
            // (an empty template without results is an optimisation barrier)
            Callee::Asm(s) if s.contains("cpuid") || s.starts_with("|") && c.ret.is_empty() => {
                drop(fr);
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                for k in 0..c.ret.len() {
                    f.regs[c.dst as usize + k] = V::C(0);
                }
                match c.normal {
                    Some(e) => self.jump(st, e),
                    None => f.pc += 1,
                }
                return Ok(());
            }
            Callee::Asm(s) => {
                return Err(Stop::Incomplete(format!("inline assembly {}", &s[..s.len().min(40)])))
            }
        };
        let bi = self.bis[fid as usize];
        if bi != Bi::None {
            let args: Vec<Vec<V>> = c
                .args
                .iter()
                .map(|(o, n, _)| (0..*n).map(|k| self.get(&fr, *o, k)).collect())
                .collect();
            drop(fr);
            if let Some(r) = self.builtin(st, bi, c, args, fid)? {
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                for (k, v) in r.iter().enumerate() {
                    f.regs[c.dst as usize + k] = *v;
                }
                match c.normal {
                    Some(e) => self.jump(st, e),
                    None => f.pc += 1,
                }
            }
            return Ok(());
        }
        let f = match self.func(fid) {
            Some(f) => f,
            None => {
                return Err(Stop::Incomplete(format!(
                    "call of external function {}",
                    self.m.fns[fid as usize].name
                )))
            }
        };
        if st.frames.len() >= self.sh.cfg.max_depth {
            return Err(Stop::Violation("stack".into(), format!("recursion deeper than {}", self.sh.cfg.max_depth)));
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for ((o, n, _), (r, pn)) in c.args.iter().zip(f.params.iter()) {
            for k in 0..(*n).min(*pn) {
                regs[(*r + k) as usize] = self.get(&fr, *o, k);
            }
        }
        drop(fr);
        st.frames.push(Rc::new(Frame { func: f, fid, regs, pc: 0, allocas: vec![], ret_dst: c.dst }));
        Ok(())
    }

    fn heap_alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if size > 1 << 28 {
            return Err(Stop::Incomplete(format!("allocation of {size} bytes")));
        }
        let a = st.mem.alloc(size, align, Kind::Heap, if zero { 0 } else { 0xcd });
        if st.conc.is_some() && !st.threads.is_empty() {
            let id = (a >> OBJ_SHIFT) as u32;
            self.race(st, id, 0, size as usize, true)?;
        }
        Ok(a)
    }
    fn heap_free(&mut self, st: &mut State, a: u64) -> R<()> {
        let id = (a >> OBJ_SHIFT) as u32;
        let ok = match st.mem.get(id) {
            Some(o) => o.kind == Kind::Heap && o.base == a,
            None => false,
        };
        if !ok {
            return Err(self.fault("invalid or double free", a, 0));
        }
        if st.conc.is_some() {
            let n = st.mem.get(id).unwrap().data.len();
            self.race(st, id, 0, n, true)?;
        }
        st.mem.free(id);
        Ok(())
    }

    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        let id = (p >> OBJ_SHIFT) as u32;
        match st.mem.get(id) {
            Some(o) => {
                let off = p.wrapping_sub(o.base) as usize;
                if n < 4096 && off + n as usize <= o.data.len() {
                    String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned()
                } else {
                    "?".into()
                }
            }
            None => "?".into(),
        }
    }
    fn read_c(&self, st: &State, p: u64) -> Option<u64> {
        let o = st.mem.get((p >> OBJ_SHIFT) as u32)?;
        let off = p.wrapping_sub(o.base) as usize;
        if off + 8 > o.data.len() {
            return None;
        }
        Some(u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap()))
    }
    fn panic_loc(&mut self, st: &State, loc: u64) -> String {
        let (Some(p), Some(n), Some(lc)) =
            (self.read_c(st, loc), self.read_c(st, loc + 8), self.read_c(st, loc + 16))
        else {
            return "?".into();
        };
        // the length may include a trailing NUL in newer layouts
        let s = self.read_str(st, p, n);
        format!("{}:{}:{}", s.trim_end_matches('\0'), lc as u32, lc >> 32)
    }

    fn lanes(&mut self, args: &[Vec<V>], c: &CallI, f: impl Fn(&mut Self, u32, V, V) -> V) -> Vec<V> {
        let n = c.ret.len();
        (0..n)
            .map(|k| {
                let w = c.args[0].2[k].1;
                let a = self.wide0(args[0][k], w);
                let b = match args.get(1) {
                    Some(x) => *x.get(k).unwrap_or(&x[0]),
                    None => V::C(0),
                };
                f(self, w, a, b)
            })
            .collect()
    }

    fn overflow(&mut self, bi: Bi, w: u32, a: V, b: V) -> (V, V) {
        let (x, y) = (self.sy(a, w), self.sy(b, w));
        let ar = &mut self.ar;
        let signed = matches!(bi, Bi::SaddO | Bi::SsubO | Bi::SmulO);
        let op = match bi {
            Bi::UaddO | Bi::SaddO => Op::Add,
            Bi::UsubO | Bi::SsubO => Op::Sub,
            _ => Op::Mul,
        };
        let r = ar.bin(op, x, y);
        let o = match bi {
            Bi::UaddO => ar.bin(Op::Ult, r, x),
            Bi::UsubO => ar.bin(Op::Ult, x, y),
            _ => {
                let ww = if op == Op::Mul { (2 * w).min(128) } else { w + 1 };
                let (xe, ye) = if signed {
                    (ar.un(Un::SExt, x, ww), ar.un(Un::SExt, y, ww))
                } else {
                    (ar.zext(x, ww), ar.zext(y, ww))
                };
                let p = ar.bin(op, xe, ye);
                let re = if signed { ar.un(Un::SExt, r, ww) } else { ar.zext(r, ww) };
                let eq = ar.bin(Op::Eq, p, re);
                ar.not(eq)
            }
        };
        (self.mk(r), self.mk(o))
    }

    fn fold_concrete(&self, v: V, w: u32) -> Option<u128> {
        let _ = w;
        match v {
            V::C(c) => Some(c as u128),
            V::S(e) => self.ar.as_const(e),
        }
    }

    fn builtin(
        &mut self,
        st: &mut State,
        bi: Bi,
        c: &'static CallI,
        args: Vec<Vec<V>>,
        fid: u32,
    ) -> R<Option<Vec<V>>> {
        let one = |v: V| Ok(Some(vec![v]));
        macro_rules! conc {
            ($k:expr) => {
                self.concretize(st, args[$k][0])?
            };
        }
        match bi {
            Bi::None => unreachable!(),
            Bi::Nop => return Ok(Some(vec![V::C(0); c.ret.len()])),
            Bi::NopZero => return Ok(Some(vec![V::C(0); c.ret.len()])),
            Bi::Alloc | Bi::AllocZ => {
                let n = conc!(0);
                let al = conc!(1);
                let a = self.heap_alloc(st, n, al, bi == Bi::AllocZ)?;
                return one(V::C(a));
            }
            Bi::Malloc => {
                let n = conc!(0);
                let a = self.heap_alloc(st, n, 16, false)?;
                return one(V::C(a));
            }
            Bi::Calloc => {
                let n = conc!(0);
                let k = conc!(1);
                let a = self.heap_alloc(st, n.wrapping_mul(k), 16, true)?;
                return one(V::C(a));
            }
            Bi::PosixMemalign => {
                let p = conc!(0);
                let al = conc!(1);
                let n = conc!(2);
                let a = self.heap_alloc(st, n, al, false)?;
                self.write(st, p, V::C(a), 64, 8)?;
                return one(V::C(0));
            }
            Bi::Dealloc => {
                let p = conc!(0);
                self.heap_free(st, p)?;
                return Ok(Some(vec![]));
            }
            Bi::Free => {
                let p = conc!(0);
                if p != 0 {
                    self.heap_free(st, p)?;
                }
                return Ok(Some(vec![]));
            }
            Bi::Realloc | Bi::LibcRealloc => {
                let p = conc!(0);
                let (al, n) = if bi == Bi::Realloc { (conc!(2), conc!(3)) } else { (16, conc!(1)) };
                if p == 0 {
                    let a = self.heap_alloc(st, n, al, false)?;
                    return one(V::C(a));
                }
                let id = (p >> OBJ_SHIFT) as u32;
                let old = match st.mem.get(id) {
                    Some(o) if o.kind == Kind::Heap && o.base == p => o.data.len() as u64,
                    _ => return Err(self.fault("realloc of an invalid pointer", p, n)),
                };
                let a = self.heap_alloc(st, n, al, false)?;
                self.copy(st, a, p, old.min(n))?;
                self.heap_free(st, p)?;
                return one(V::C(a));
            }
            Bi::Memcpy | Bi::Memmove => {
                let n = conc!(2);
                let d = conc!(0);
                let s = conc!(1);
                if n != 0 && bi == Bi::Memcpy && d != s && d < s.wrapping_add(n) && s < d.wrapping_add(n) {
                    return Err(self.fault("memcpy of overlapping ranges", d, n));
                }
                self.copy(st, d, s, n)?;
                return Ok(Some(if c.ret.is_empty() { vec![] } else { vec![V::C(d)] }));
            }
            Bi::Memset => {
                let n = conc!(2);
                let d = conc!(0);
                let v = args[1][0];
                if n > 0 {
                    let (id, off) = self.locate(st, d, n, 1, true)?;
                    if st.conc.is_some() {
                        self.race(st, id, off, n as usize, true)?;
                    }
                    match v {
                        V::C(x) => {
                            let o = st.mem.get_mut(id).unwrap();
                            o.data[off..off + n as usize].fill(x as u8);
                            if !o.sym.is_empty() {
                                o.sym[off..off + n as usize].fill(0);
                            }
                        }
                        v => {
                            for k in 0..n {
                                let w = c.args[1].2[0].1;
                                let e = self.sy(v, w);
                                let e = self.ar.extract(e, 0, 8);
                                let b = self.mk(e);
                                self.write(st, d + k, b, 8, 1)?;
                            }
                        }
                    }
                }
                return Ok(Some(if c.ret.is_empty() { vec![] } else { vec![V::C(d)] }));
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = conc!(2);
                let a = conc!(0);
                let b = conc!(1);
                let r = self.compare(st, a, b, n, bi == Bi::Memcmp)?;
                return one(r);
            }
            Bi::Strlen => {
                let a = conc!(0);
                let mut k = 0;
                loop {
                    let b = self.read(st, a + k, 8, 1)?;
                    let z = self.cmp(Pred::Eq, 8, b, V::C(0));
                    let z = match z {
                        V::C(x) => x == 1,
                        V::S(e) => self.choose(st, e)?,
                    };
                    if z {
                        break;
                    }
                    k += 1;
                }
                return one(V::C(k));
            }
            Bi::PanicFmt | Bi::PanicNounwind | Bi::PanicOther => {
                let mut msg = String::from("panic");
                let mut loc = String::new();
                if bi != Bi::PanicOther && args.len() >= 3 {
                    if let (V::C(t), V::C(a)) = (args[0][0], args[1][0]) {
                        if a & 1 == 1 {
                            msg = self.read_str(st, t, a >> 1);
                        }
                    }
                    if let Some(V::C(l)) = args.last().map(|x| x[0]) {
                        loc = self.panic_loc(st, l);
                    }
                } else {
                    msg = format!("panic in {}", self.m.fns[fid as usize].name);
                    if let Some(V::C(l)) = args.last().and_then(|x| x.first().copied()) {
                        let s = self.panic_loc(st, l);
                        if s != "?" {
                            loc = s
                        }
                    }
                }
                if loc.is_empty() || loc == "?" {
                    loc = self.location(st).into_iter().take(3).collect::<Vec<_>>().join(" < ");
                }
                let kind = if bi == Bi::PanicNounwind { "abort" } else { "panic" };
                return Err(Stop::Violation(kind.into(), format!("{msg}\u{1}{loc}")));
            }
            Bi::Abort => return Err(Stop::Violation("abort".into(), "abort".into())),
            Bi::SymBytes => {
                let p = conc!(0);
                let n = conc!(1);
                for k in 0..n {
                    let v = if let Some(m) = &self.sh.cfg.concrete {
                        V::C(m.get(st.nvars as usize).copied().unwrap_or(0) as u64)
                    } else {
                        V::S(self.ar.var(st.nvars))
                    };
                    st.nvars += 1;
                    self.write(st, p + k, v, 8, 1)?;
                }
                return Ok(Some(vec![]));
            }
            Bi::SymAssume => {
                let v = args[0][0];
                let ok = match v {
                    V::C(x) => x & 1 == 1,
                    V::S(e) => {
                        let w = self.ar.w(e);
                        let e = if w > 1 { self.ar.extract(e, 0, 1) } else { e };
                        if let Some(d) = self.next_forced(st) {
                            if d == 1 {
                                self.add(st, e);
                            }
                            d == 1
                        } else if e == self.ar.tru {
                            self.record(st, 1);
                            true
                        } else if e == self.ar.fls {
                            false
                        } else {
                            // only the satisfying side is followed
                            let holds = self.ar.eval(e, &st.model) == 1;
                            let mut sat = holds;
                            if !holds {
                                let (t, _, mt, _) = self.both(st, e)?;
                                sat = t;
                                if let (true, Some(m)) = (t, mt) {
                                    self.apply_model(st, &m);
                                }
                            }
                            if sat {
                                self.record(st, 1);
                                self.add(st, e);
                            }
                            sat
                        }
                    }
                };
                if !ok {
                    return Err(Stop::End(false));
                }
                return Ok(Some(vec![]));
            }
            Bi::SymAssert => {
                // (cond, msg ptr, msg len)
                let v = args[0][0];
                self.rep.asserts += 1;
                let (mp, ml) = (conc!(1), conc!(2));
                match v {
                    V::C(x) => {
                        if x & 1 == 0 {
                            let m = self.read_str(st, mp, ml);
                            return Err(Stop::Violation("assert".into(), format!("{m}\u{1}{}", self.harness(st))));
                        }
                    }
                    V::S(e) => {
                        let w = self.ar.w(e);
                        let e = if w > 1 { self.ar.extract(e, 0, 1) } else { e };
                        if st.fpos < st.forced.len() {
                            // replayed prefix: the assertion was already decided there
                            let d = self.next_forced(st).unwrap();
                            let k = if d == 1 { e } else { self.ar.not(e) };
                            self.add(st, k);
                            if d == 0 {
                                let m = self.read_str(st, mp, ml);
                                return Err(Stop::Violation("assert".into(), format!("{m}\u{1}{}", self.harness(st))));
                            }
                        } else if e != self.ar.tru {
                            self.rep.asserts_sym += 1;
                            if !self.assert_check(st, e)? {
                                let m = self.read_str(st, mp, ml);
                                return Err(Stop::Violation("assert".into(), format!("{m}\u{1}{}", self.harness(st))));
                            }
                        } else {
                            self.record(st, 1);
                        }
                    }
                }
                return Ok(Some(vec![]));
            }
            Bi::SymFail => {
                let (p, n) = (conc!(0), conc!(1));
                let m = self.read_str(st, p, n);
                return Err(Stop::Violation("assert".into(), format!("{m}\u{1}{}", self.harness(st))));
            }
            Bi::SymCover => {
                let k = conc!(0) as u32;
                if !st.covers.contains(&k) {
                    Rc::make_mut(&mut st.covers).push(k);
                }
                return Ok(Some(vec![]));
            }
            Bi::SymObserve => {
                let v = args[0][0];
                Rc::make_mut(&mut st.observed).push(v);
                return Ok(Some(vec![]));
            }
            Bi::SymLive => return one(V::C(st.mem.live as u64)),
            Bi::SymExpectPanic => {
                let v = conc!(0);
                st.expect_panic = v & 1 == 1;
                return Ok(Some(vec![]));
            }
            Bi::SymConcretize => {
                let v = conc!(0);
                return one(V::C(v));
            }
            Bi::SymEnd => return Err(Stop::End(true)),
            Bi::SymDump => {
                let (p, n) = (conc!(0), conc!(1));
                if self.sh.cfg.verbose {
                    let id = (p >> OBJ_SHIFT) as u32;
                    if n > 0 {
                        let (_, off) = self.locate(st, p, n, 1, false)?;
                        let mut s = String::new();
                        for k in 0..n as usize {
                            match self.byte_at(st, id, off + k) {
                                V::C(c) => s.push((c as u8) as char),
                                V::S(e) => s.push_str(&format!("⟨{}⟩", self.ar.show(e, 3))),
                            }
                        }
                        eprintln!("dump: {s}");
                    }
                }
                return Ok(Some(vec![]));
            }
            Bi::SymSpawn => {
                // (fn ptr, arg)
                let f = conc!(0);
                let arg = args[1][0];
                let fid = self.m.addr_fn(f).expect("spawn target");
                let func = self.func(fid).expect("spawn body");
                if st.threads.is_empty() {
                    st.threads.push(Thread {
                        frames: vec![],
                        done: false,
                        vc: vec![1],
                        blocked_join: false,
                        waiting: false,
                        fence_acq: vec![],
                        fence_rel: None,
                    });
                    st.conc = Some(Rc::new(Conc::default()));
                    st.tid = 0;
                }
                let mut regs = vec![V::C(0); func.nregs as usize];
                regs[func.params[0].0 as usize] = arg;
                let fr = Rc::new(Frame { func, fid, regs, pc: 0, allocas: vec![], ret_dst: 0 });
                let k = st.threads.len();
                let mut vc = st.threads[st.tid].vc.clone();
                vc.resize(k + 1, 0);
                vc[k] = 1;
                let cur = st.tid;
                st.threads[cur].vc[cur] += 1;
                st.threads.push(Thread {
                    frames: vec![fr],
                    done: false,
                    vc,
                    blocked_join: false,
                    waiting: false,
                    fence_acq: vec![],
                    fence_rel: None,
                });
                for t in st.threads.iter_mut() {
                    t.vc.resize(k + 1, 0)
                }
                return Ok(Some(vec![]));
            }
            Bi::SymJoin => {
                // the caller waits for every other thread
                let tid = st.tid;
                st.threads[tid].blocked_join = true;
                if st.threads.iter().enumerate().all(|(k, t)| k == tid || t.done) {
                    let clocks: Vec<Vec<u32>> = st.threads.iter().map(|t| t.vc.clone()).collect();
                    for c in clocks {
                        vc_join(&mut st.threads[tid].vc, &c);
                    }
                    st.threads[tid].blocked_join = false;
                    return Ok(Some(vec![]));
                }
                let run: Vec<usize> = (0..st.threads.len()).filter(|&t| t != tid && !st.threads[t].done).collect();
                let k = self.sched_choice(st, run.len())?;
                Rc::make_mut(&mut st.schedule).push(run[k] as u8);
                self.switch_to(st, run[k]);
                return Ok(None);
            }
            Bi::SymYield => {
                if self.sched_point(st)? {
                    return Ok(None);
                }
                return Ok(Some(vec![]));
            }
            Bi::Pause => {
                if self.wait_point(st)? {
                    return Ok(None);
                }
                return Ok(Some(vec![]));
            }
            Bi::SchedYield => {
                if self.wait_point(st)? {
                    return Ok(None);
                }
                return one(V::C(0));
            }
            Bi::Syscall => {
                // futex(word, operation, value): a waiter goes on, perhaps for no reason, once another thread moved
                if self.fold_concrete(args[0][0], 64) != Some(202) || args.len() < 4 {
                    return Err(Stop::Incomplete("system call".into()));
                }
                match conc!(2) & 0x7f {
                    0 | 9 => {
                        let word = conc!(1);
                        let x = self.read(st, word, 32, 1)?;
                        let (x, y) = (self.fold_concrete(x, 32), self.fold_concrete(args[3][0], 32));
                        if x.is_none() || y.is_none() {
                            return Err(Stop::Incomplete("futex of a symbolic value".into()));
                        }
                        if x == y || st.yielded {
                            if self.wait_point(st)? {
                                return Ok(None);
                            }
                        }
                        return one(V::C(0));
                    }
                    1 => return one(V::C(0)),
                    _ => return Err(Stop::Incomplete("futex operation".into())),
                }
            }
            Bi::SymConfirm | Bi::SymForkless | Bi::FilterHashFinish => return Ok(Some(vec![])),
            Bi::Getrandom => {
                let n = conc!(1);
                let p = conc!(0);
                for k in 0..n {
                    self.write(st, p + k, V::C(7), 8, 1)?;
                }
                return one(V::C(n));
            }
            Bi::Getenv => return one(V::C(0)),
            Bi::ErrnoLoc => {
                let a = match st.scratch.get(&0) {
                    Some(a) => *a,
                    None => {
                        let a = st.mem.alloc(4, 4, Kind::Global, 0);
                        Rc::make_mut(&mut st.scratch).insert(0, a);
                        a
                    }
                };
                return one(V::C(a));
            }
            Bi::Write => {
                let n = args[2][0];
                return one(n);
            }
            Bi::Tls => {
                let p = conc!(0);
                if st.tid == 0 {
                    return one(V::C(p));
                }
                let gid = (p >> OBJ_SHIFT) as u32;
                let id = match st.tls.get(&(st.tid, gid)) {
                    Some(i) => *i,
                    None => {
                        let g = &self.m.globals[gid as usize - 1];
                        let a = st.mem.alloc(g.size, g.align, Kind::Global, 0);
                        let id = (a >> OBJ_SHIFT) as u32;
                        st.mem.get_mut(id).unwrap().data.copy_from_slice(&g.init);
                        Rc::make_mut(&mut st.tls).insert((st.tid, gid), id);
                        id
                    }
                };
                let base = st.mem.get(id).unwrap().base;
                let gb = self.m.global_addr(gid - 1);
                return one(V::C(base + (p - gb)));
            }
            Bi::Umax => return Ok(Some(self.lanes(&args, c, |s, w, a, b| s.minmax(Op::Ult, w, a, b, true)))),
            Bi::Umin => return Ok(Some(self.lanes(&args, c, |s, w, a, b| s.minmax(Op::Ult, w, a, b, false)))),
            Bi::Smax => return Ok(Some(self.lanes(&args, c, |s, w, a, b| s.minmax(Op::Slt, w, a, b, true)))),
            Bi::Smin => return Ok(Some(self.lanes(&args, c, |s, w, a, b| s.minmax(Op::Slt, w, a, b, false)))),
            Bi::Abs => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, _| {
                    let x = s.sy(a, w);
                    let z = s.ar.konst(w, 0);
                    let n = s.ar.bin(Op::Sub, z, x);
                    let neg = s.ar.bin(Op::Slt, x, z);
                    let r = s.ar.ite(neg, n, x);
                    s.mk(r)
                })))
            }
            Bi::Ctpop => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, _| {
                    if let Some(v) = s.fold_concrete(a, w) {
                        let r = s.ar.konst(w, v.count_ones() as u128);
                        return s.mk(r);
                    }
                    let x = s.sy(a, w);
                    let mut r = s.ar.konst(w, 0);
                    for k in 0..w {
                        let b = s.ar.extract(x, k, 1);
                        let b = s.ar.zext(b, w);
                        r = s.ar.bin(Op::Add, r, b);
                    }
                    s.mk(r)
                })))
            }
            Bi::Ctlz | Bi::Cttz => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, _| {
                    if let Some(v) = s.fold_concrete(a, w) {
                        let r = if v == 0 {
                            w
                        } else if bi == Bi::Ctlz {
                            v.leading_zeros() - (128 - w)
                        } else {
                            v.trailing_zeros()
                        };
                        let r = s.ar.konst(w, r as u128);
                        return s.mk(r);
                    }
                    let x = s.sy(a, w);
                    let mut r = s.ar.konst(w, w as u128);
                    for k in 0..w {
                        // lowest priority first
                        let bit = if bi == Bi::Ctlz { k } else { w - 1 - k };
                        let n = if bi == Bi::Ctlz { w - 1 - k } else { bit };
                        let b = s.ar.extract(x, bit, 1);
                        let v = s.ar.konst(w, n as u128);
                        r = s.ar.ite(b, v, r);
                    }
                    s.mk(r)
                })))
            }
            Bi::Bswap => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, _| {
                    let x = s.sy(a, w);
                    let mut r: Option<Id> = None;
                    for k in 0..w / 8 {
                        let b = s.ar.extract(x, k * 8, 8);
                        r = Some(match r {
                            None => b,
                            Some(h) => s.ar.bin(Op::Concat, h, b),
                        });
                    }
                    s.mk(r.unwrap())
                })))
            }
            Bi::Bitrev => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, _| {
                    let x = s.sy(a, w);
                    let mut r: Option<Id> = None;
                    for k in 0..w {
                        let b = s.ar.extract(x, k, 1);
                        r = Some(match r {
                            None => b,
                            Some(h) => s.ar.bin(Op::Concat, h, b),
                        });
                    }
                    s.mk(r.unwrap())
                })))
            }
            Bi::Fshl | Bi::Fshr => {
                let n = c.ret.len();
                let mut out = vec![];
                for k in 0..n {
                    let w = c.ret[k].1;
                    let (x, y, z) = (self.sy(args[0][k], w), self.sy(args[1][k], w), self.sy(args[2][k], w));
                    let ww = self.ar.konst(w, w as u128);
                    let s = self.ar.bin(Op::URem, z, ww);
                    let inv = self.ar.bin(Op::Sub, ww, s);
                    // shifts by w give 0 in the SMT semantics
                    let r = if bi == Bi::Fshl {
                        let h = self.ar.bin(Op::Shl, x, s);
                        let l = self.ar.bin(Op::LShr, y, inv);
                        self.ar.bin(Op::Or, h, l)
                    } else {
                        let l = self.ar.bin(Op::LShr, y, s);
                        let h = self.ar.bin(Op::Shl, x, inv);
                        self.ar.bin(Op::Or, h, l)
                    };
                    out.push(self.mk(r));
                }
                return Ok(Some(out));
            }
            Bi::UaddO | Bi::UsubO | Bi::UmulO | Bi::SaddO | Bi::SsubO | Bi::SmulO => {
                let w = c.ret[0].1;
                if c.ret.len() != 2 {
                    return Err(Stop::Incomplete("vector overflow intrinsic".into()));
                }
                let (r, o) = self.overflow(bi, w, args[0][0], args[1][0]);
                return Ok(Some(vec![r, o]));
            }
            Bi::UaddS | Bi::UsubS | Bi::SaddS | Bi::SsubS => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, b| {
                    let k = match bi {
                        Bi::UaddS => Bi::UaddO,
                        Bi::UsubS => Bi::UsubO,
                        Bi::SaddS => Bi::SaddO,
                        _ => Bi::SsubO,
                    };
                    let (r, o) = s.overflow(k, w, a, b);
                    let r = s.sy(r, w);
                    let o = s.sy(o, 1);
                    let lim = match bi {
                        Bi::UaddS => s.ar.konst(w, mask(w)),
                        Bi::UsubS => s.ar.konst(w, 0),
                        _ => {
                            let x = s.sy(a, w);
                            let z = s.ar.konst(w, 0);
                            let neg = s.ar.bin(Op::Slt, x, z);
                            let lo = s.ar.konst(w, 1 << (w - 1));
                            let hi = s.ar.konst(w, mask(w - 1));
                            s.ar.ite(neg, lo, hi)
                        }
                    };
                    let t = s.ar.ite(o, lim, r);
                    s.mk(t)
                })))
            }
            Bi::Scmp | Bi::Ucmp => {
                let w = c.args[0].2[0].1;
                let wr = c.ret[0].1;
                let op = if bi == Bi::Scmp { Op::Slt } else { Op::Ult };
                let (x, y) = (self.sy(args[0][0], w), self.sy(args[1][0], w));
                let lt = self.ar.bin(op, x, y);
                let gt = self.ar.bin(op, y, x);
                let neg = self.ar.konst(wr, mask(wr));
                let pos = self.ar.konst(wr, 1);
                let z = self.ar.konst(wr, 0);
                let t = self.ar.ite(gt, pos, z);
                let r = self.ar.ite(lt, neg, t);
                return one(self.mk(r));
            }
            Bi::IsConst => return one(V::C(0)),
            Bi::Expect => return Ok(Some(args[0].clone())),
            Bi::FptouiSat | Bi::FptosiSat => {
                let n = c.ret.len();
                let mut out = vec![];
                for k in 0..n {
                    let wi = c.args[0].2[k].1;
                    let wo = c.ret[k].1;
                    let x = self.sy(args[0][k], wi);
                    let r = self.ar.un(if bi == Bi::FptouiSat { Un::FToUI } else { Un::FToSI }, x, wo);
                    out.push(self.mk(r));
                }
                return Ok(Some(out));
            }
            Bi::Floor | Bi::Ceil | Bi::TruncF | Bi::RoundEven | Bi::RoundF | Bi::Sqrt => {
                let u = match bi {
                    Bi::Floor => Un::FFloor,
                    Bi::Ceil => Un::FCeil,
                    Bi::TruncF => Un::FTruncI,
                    Bi::RoundEven => Un::FRoundEven,
                    Bi::RoundF => Un::FRound,
                    _ => Un::FSqrt,
                };
                return Ok(Some(self.lanes(&args, c, |s, w, a, _| {
                    let x = s.sy(a, w);
                    let r = s.ar.un(u, x, w);
                    s.mk(r)
                })));
            }
            Bi::Fabs => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, _| {
                    let x = s.sy(a, w);
                    let m = s.ar.konst(w, mask(w - 1));
                    let r = s.ar.bin(Op::And, x, m);
                    s.mk(r)
                })))
            }
            Bi::Copysign => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, b| {
                    let x = s.sy(a, w);
                    let y = s.sy(b, w);
                    let m = s.ar.konst(w, mask(w - 1));
                    let k = s.ar.konst(w, 1 << (w - 1));
                    let p = s.ar.bin(Op::And, x, m);
                    let q = s.ar.bin(Op::And, y, k);
                    let r = s.ar.bin(Op::Or, p, q);
                    s.mk(r)
                })))
            }
            Bi::MinNum | Bi::MaxNum => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, b| {
                    let x = s.sy(a, w);
                    let y = s.sy(b, w);
                    let lt = if bi == Bi::MinNum { s.ar.bin(Op::FLt, x, y) } else { s.ar.bin(Op::FLt, y, x) };
                    let xn = s.ar.bin(Op::FUno, x, x);
                    let yn = s.ar.bin(Op::FUno, y, y);
                    let t = s.ar.ite(lt, x, y);
                    let t = s.ar.ite(yn, x, t);
                    let t = s.ar.ite(xn, y, t);
                    s.mk(t)
                })))
            }
            Bi::MinimumNum | Bi::MaximumNum => {
                return Ok(Some(self.lanes(&args, c, |s, w, a, b| {
                    let x = s.sy(a, w);
                    let y = s.sy(b, w);
                    let min = bi == Bi::MinimumNum;
                    let (lt, gt) = (s.ar.bin(Op::FLt, x, y), s.ar.bin(Op::FLt, y, x));
                    let (first, second) = if min { (lt, gt) } else { (gt, lt) };
                    let xn = s.ar.bin(Op::FUno, x, x);
                    let yn = s.ar.bin(Op::FUno, y, y);
                    // equal values are the same bits, or zeros of which a negative one is the less
                    let t = s.ar.bin(if min { Op::Or } else { Op::And }, x, y);
                    let t = s.ar.ite(second, y, t);
                    let t = s.ar.ite(first, x, t);
                    let t = s.ar.ite(yn, x, t);
                    let t = s.ar.ite(xn, y, t);
                    s.mk(t)
                })))
            }
            Bi::FmaConcrete | Bi::Pow | Bi::Fmod => {
                let xs: Option<Vec<u128>> = args.iter().map(|a| self.fold_concrete(a[0], 64)).collect();
                match xs {
                    Some(v) if c.ret[0].1 == 64 => {
                        let f = |k: usize| f64::from_bits(v[k] as u64);
                        let r = match bi {
                            Bi::FmaConcrete => f(0).mul_add(f(1), f(2)),
                            Bi::Fmod => f(0) % f(1),
                            _ => f(0).powf(f(1)),
                        };
                        return one(V::C(r.to_bits()));
                    }
                    _ => return Err(Stop::Incomplete("symbolic floating-point library function".into())),
                }
            }
            Bi::IsFpClass => {
                let w = c.args[0].2[0].1;
                let k = conc!(1);
                let x = self.sy(args[0][0], w);
                let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
                let ar = &mut self.ar;
                let man = ar.extract(x, 0, mb);
                let ex = ar.extract(x, mb, eb);
                let sign = ar.extract(x, w - 1, 1);
                let mz = {
                    let z = ar.konst(mb, 0);
                    ar.bin(Op::Eq, man, z)
                };
                let e0 = {
                    let z = ar.konst(eb, 0);
                    ar.bin(Op::Eq, ex, z)
                };
                let e1 = {
                    let z = ar.konst(eb, mask(eb));
                    ar.bin(Op::Eq, ex, z)
                };
                let quiet = ar.extract(x, mb - 1, 1);
                let (nmz, ne0, ne1, nsign, nq) = (ar.not(mz), ar.not(e0), ar.not(e1), ar.not(sign), ar.not(quiet));
                let mut r = ar.fls;
                let mut put = |ar: &mut Arena, bit: u64, l: &[Id]| {
                    if k >> bit & 1 == 1 {
                        let mut t = ar.tru;
                        for &i in l {
                            t = ar.bin(Op::And, t, i)
                        }
                        r = ar.bin(Op::Or, r, t);
                    }
                };
                put(ar, 0, &[e1, nmz, nq]);
                put(ar, 1, &[e1, nmz, quiet]);
                put(ar, 2, &[e1, mz, sign]);
                put(ar, 3, &[ne0, ne1, sign]);
                put(ar, 4, &[e0, nmz, sign]);
                put(ar, 5, &[e0, mz, sign]);
                put(ar, 6, &[e0, mz, nsign]);
                put(ar, 7, &[e0, nmz, nsign]);
                put(ar, 8, &[ne0, ne1, nsign]);
                put(ar, 9, &[e1, mz, nsign]);
                return one(self.mk(r));
            }
            Bi::ReduceOr | Bi::ReduceAnd | Bi::ReduceAdd | Bi::ReduceXor | Bi::ReduceMul | Bi::ReduceUmax
            | Bi::ReduceUmin => {
                let w = c.ret[0].1;
                let mut r = args[0][0];
                for k in 1..args[0].len() {
                    let x = args[0][k];
                    r = match bi {
                        Bi::ReduceOr => self.binop(BinOp::Or, w, r, x)?,
                        Bi::ReduceAnd => self.binop(BinOp::And, w, r, x)?,
                        Bi::ReduceAdd => self.binop(BinOp::Add, w, r, x)?,
                        Bi::ReduceXor => self.binop(BinOp::Xor, w, r, x)?,
                        Bi::ReduceMul => self.binop(BinOp::Mul, w, r, x)?,
                        Bi::ReduceUmax => self.minmax(Op::Ult, w, x, r, true),
                        _ => self.minmax(Op::Ult, w, r, x, false),
                    };
                }
                return one(r);
            }
            Bi::Psadbw => {
                // <16 x i8> x2 -> <2 x i64>
                let mut out = vec![];
                for h in 0..2 {
                    let mut acc = V::C(0);
                    for k in 0..8 {
                        let (a, b) = (args[0][h * 8 + k], args[1][h * 8 + k]);
                        let d1 = self.binop(BinOp::Sub, 8, a, b)?;
                        let d2 = self.binop(BinOp::Sub, 8, b, a)?;
                        let (x, y) = (self.sy(a, 8), self.sy(b, 8));
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let (p, q) = (self.sy(d2, 8), self.sy(d1, 8));
                        let d = self.ar.ite(lt, p, q);
                        let d = self.ar.zext(d, 64);
                        let d = self.mk(d);
                        acc = self.binop(BinOp::Add, 64, acc, d)?;
                    }
                    out.push(acc);
                }
                return Ok(Some(out));
            }
            Bi::Ptrmask => {
                let r = self.binop(BinOp::And, 64, args[0][0], args[1][0])?;
                return one(r);
            }
        }
    }

    /// Checks an assertion: decides whether its negation is reachable. Both continuations are kept.
    fn assert_check(&mut self, st: &mut State, e: Id) -> R<bool> {
        if e == self.ar.fls {
            self.record(st, 0);
            return Ok(false);
        }
        // the assertion itself always goes to the solver
        let n = self.ar.not(e);
        let (r, m) = self.query(st, n);
        match r {
            Res::Unknown => Err(Stop::Incomplete("solver gave up on an assertion".into())),
            Res::Unsat => {
                self.record(st, 1);
                Ok(true)
            }
            Res::Sat => {
                // violating continuation now; the satisfying one later if it exists
                let (r2, m2) = self.query(st, e);
                if r2 == Res::Sat {
                    self.push_alt(st, 1, Some(&m2));
                }
                self.apply_model(st, &m);
                self.record(st, 0);
                self.add(st, n);
                Ok(false)
            }
        }
    }

    fn harness(&self, st: &State) -> String {
        st.frames.first().map(|f| self.m.fns[f.fid as usize].name.clone()).unwrap_or_default()
    }
}

pub fn worker(sh: &Shared, entry: u32) {
    use std::sync::atomic::Ordering::Relaxed;
    let mut ex = Exec::new(sh);
    loop {
        // take a job
        let job = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if q.2 || sh.stop.load(Relaxed) {
                    q.2 = true;
                    sh.cv.notify_all();
                    break None;
                }
                if let Some(j) = q.0.pop() {
                    break Some(j);
                }
                q.1 += 1;
                sh.hungry.fetch_add(1, Relaxed);
                if q.1 == sh.cfg.workers {
                    q.2 = true;
                    sh.cv.notify_all();
                    break None;
                }
                q = sh.cv.wait_timeout(q, std::time::Duration::from_millis(200)).unwrap().0;
                q.1 -= 1;
                sh.hungry.fetch_sub(1, Relaxed);
            }
        };
        let Some(job) = job else { break };
        let mut st = ex.start(entry);
        st.forced = Rc::new(job.forced);
        st.model = Rc::new(job.model);
        ex.work.push(st);
        while let Some(s) = ex.work.pop() {
            if sh.stop.load(Relaxed) {
                break;
            }
            ex.run(s);
        }
        ex.work.clear();
    }
    // merge
    let mut r = sh.report.lock().unwrap();
    let p = std::mem::take(&mut ex.rep);
    r.paths += p.paths;
    r.cut += p.cut;
    r.ended_panic += p.ended_panic;
    for (k, v) in p.incomplete {
        *r.incomplete.entry(k).or_default() += v
    }
    r.insts += p.insts;
    r.forks += p.forks;
    r.asserts += p.asserts;
    r.asserts_sym += p.asserts_sym;
    for (k, v) in p.covers {
        *r.covers.entry(k).or_default() += v
    }
    r.traces.extend(p.traces);
    r.queries += ex.sv.queries;
    r.sat += ex.sv.sat;
    r.unsat += ex.sv.unsat;
    r.unknown += ex.sv.unknown;
    r.solver_s += ex.sv.time;
    r.fast += p.fast;
    r.fns.extend(p.fns);
    r.dump.extend(std::mem::take(&mut ex.sv.dump));
    r.maxvars = r.maxvars.max(p.maxvars);
    r.timeout |= p.timeout;
}

/// A vector of whole bytes of single bits, which are packed in memory.
fn bit_vector(leaves: &[(u32, u32)]) -> bool {
    !leaves.is_empty() && leaves.len() % 8 == 0 && leaves.iter().enumerate().all(|(k, l)| l.1 == 1 && l.0 as usize == k / 8)
}
