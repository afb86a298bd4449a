//! Symbolic execution core: hash-consed bit-vector terms, in-process Z3,
//! depth-first path exploration by deterministic re-execution.
//!
//! The code under test is ordinary compiled Rust instantiated with symbolic
//! value types.  Every data-dependent decision on a symbolic value goes through
//! [`branch`], which asks the solver which sides are feasible and explores all
//! feasible sides.
mod z3;

use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    /// inverse of arg modulo the given prime (0 if arg = 0)
    InvVar(u128),
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    And,
    Or,
    Xor,
    Not,
    Shl(u16),
    Lshr(u16),
    Extract(u16, u16),
    Zext,
    /// identity with a tighter known upper bound
    Bound(u128),
    Ite,
    Eq,
    Ult,
    Ule,
    True,
    False,
    BNot,
    BAnd,
    BOr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Key {
    op: Op,
    w: u16,
    a: [Id; 3],
}

struct Node {
    key: Key,
    /// input variables the term depends on
    sup: Rc<Vec<u64>>,
    lb: u128,
    ub: u128,
}

/// A bit-vector term.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Bv(pub Id);
/// A boolean term.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct B(pub Id);

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn bits(v: u128) -> u16 {
    ((128 - v.leading_zeros()) as u16).max(1)
}

struct ModelVals {
    vars: Vec<u128>,
    memo: RefCell<Vec<Option<u128>>>,
}

#[derive(Clone)]
enum Entry {
    Branch {
        cond: Id,
        taken: bool,
        alt: bool,
        alt_model: Option<Rc<ModelVals>>,
    },
    Assume {
        cond: Id,
    },
    Choice {
        n: usize,
        cur: usize,
        /// explore alternatives below this one
        last: usize,
    },
    Concretize {
        term: Id,
        v: u128,
        taken: bool,
        alt: bool,
        alt_model: Option<Rc<ModelVals>>,
    },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Off,
    Explore,
    Replay,
}

#[derive(Clone, Debug, Default)]
pub struct Input {
    pub name: String,
    pub value: u128,
}

#[derive(Clone, Debug, Default)]
pub struct Violation {
    pub msg: String,
    pub inputs: Vec<Input>,
    pub choices: Vec<usize>,
    pub is_panic: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub paths: u64,
    pub aborted_paths: u64,
    pub limit_paths: u64,
    pub limit_msgs: Vec<String>,
    pub branches: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub hard_queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub undecided_checks: u64,
    pub solver_s: f64,
    pub wall_s: f64,
    pub complete: bool,
    pub violation: Option<Violation>,
    pub covers: std::collections::BTreeMap<String, u64>,
    pub sym_inputs_max: usize,
    pub terms: usize,
    /// concrete inputs of some explored paths, for validation by replay
    pub samples: Vec<(Vec<Input>, Vec<usize>)>,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub deadline: Duration,
    pub query_timeout_ms: u32,
    pub max_paths: u64,
    pub panic_is_violation: bool,
    pub stop_on_violation: bool,
    pub reset_lits: usize,
    /// fixed values of the first choices (sharding)
    pub force: Vec<usize>,
    pub easy_timeout_ms: u32,
    /// 0: depth first; otherwise pending branches are taken in random order
    /// (with this seed). Both orders are exhaustive if given the time.
    pub order_seed: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            deadline: Duration::from_secs(300),
            query_timeout_ms: 60_000,
            max_paths: u64::MAX,
            panic_is_violation: true,
            stop_on_violation: true,
            reset_lits: 300,
            force: vec![],
            easy_timeout_ms: 3000,
            order_seed: 0,
        }
    }
}

struct Z3State {
    ctx: z3::Ctx,
    solver: z3::Solver,
    cache: Vec<z3::Ast>,
    /// condition -> its indicator literal (defined in the solver)
    lits: HashMap<Id, z3::Ast>,
    path_ids: Vec<Id>,
    var_asts: Vec<z3::Ast>,
}
unsafe impl Send for Z3State {}

struct Engine {
    mode: Mode,
    nodes: Vec<Node>,
    cons: HashMap<Key, Id>,
    var_names: Vec<String>,
    var_width: Vec<u16>,
    var_by_name: HashMap<String, u32>,
    z3: Option<Z3State>,
    trace: Vec<Entry>,
    pos: usize,
    model: Rc<ModelVals>,
    inputs: Vec<(String, Id)>,
    name_count: HashMap<String, u32>,
    rep: Report,
    cfg: Config,
    start: Instant,
    replay_inputs: Vec<Input>,
    replay_choices: Vec<usize>,
    rpos_i: usize,
    rpos_c: usize,
    notes: Vec<String>,
    qcache: HashMap<Vec<Id>, Option<Rc<Vec<(u32, u128)>>>>,
    cores: HashMap<Id, Vec<Vec<Id>>>,
    concrete_hash: bool,
    suspend_checks: bool,
}
// SAFETY: Rc<ModelVals> is only touched while holding the global mutex.
struct Wrap(Engine);
unsafe impl Send for Wrap {}

static ENGINE: Mutex<Option<Wrap>> = Mutex::new(None);

struct G(MutexGuard<'static, Option<Wrap>>);
impl std::ops::Deref for G {
    type Target = Engine;
    fn deref(&self) -> &Engine {
        &self.0.as_ref().unwrap().0
    }
}
impl std::ops::DerefMut for G {
    fn deref_mut(&mut self) -> &mut Engine {
        &mut self.0.as_mut().unwrap().0
    }
}

fn g() -> G {
    let mut l = ENGINE.lock().unwrap_or_else(|e| e.into_inner());
    if l.is_none() {
        *l = Some(Wrap(Engine::new()));
    }
    G(l)
}

/// Panic payloads used for control flow.
pub struct AbortPath;
pub struct EngineLimit(pub String);
pub struct CheckFailed(pub String);

pub fn limit(msg: impl Into<String>) -> ! {
    panic_any(EngineLimit(msg.into()))
}

impl Engine {
    fn new() -> Self {
        let mut e = Engine {
            mode: Mode::Off,
            nodes: vec![],
            cons: HashMap::new(),
            var_names: vec![],
            var_width: vec![],
            var_by_name: HashMap::new(),
            z3: None,
            trace: vec![],
            pos: 0,
            model: Rc::new(ModelVals {
                vars: vec![],
                memo: RefCell::new(vec![]),
            }),
            inputs: vec![],
            name_count: HashMap::new(),
            rep: Report::default(),
            cfg: Config::default(),
            start: Instant::now(),
            replay_inputs: vec![],
            replay_choices: vec![],
            rpos_i: 0,
            rpos_c: 0,
            notes: vec![],
            qcache: HashMap::new(),
            cores: HashMap::new(),
            concrete_hash: false,
            suspend_checks: false,
        };
        e.mk(Op::False, 0, [0; 3], 0, 0);
        e.mk(Op::True, 0, [0; 3], 1, 1);
        e
    }

    fn mk(&mut self, op: Op, w: u16, a: [Id; 3], lb: u128, ub: u128) -> Id {
        let key = Key { op, w, a };
        if let Some(i) = self.cons.get(&key) {
            return *i;
        }
        let id = self.nodes.len() as Id;
        let sup = match op {
            Op::Var(i) => {
                let mut v = vec![0u64; i as usize / 64 + 1];
                v[i as usize / 64] |= 1 << (i % 64);
                Rc::new(v)
            }
            _ => {
                let n = nargs(op);
                if n == 0 {
                    Rc::new(vec![])
                } else {
                    let mut r = self.nodes[a[0] as usize].sup.clone();
                    for x in &a[1..n] {
                        let o = &self.nodes[*x as usize].sup;
                        if !subset(o, &r) {
                            r = if subset(&r, o) {
                                o.clone()
                            } else {
                                Rc::new(union(&r, o))
                            };
                        }
                    }
                    r
                }
            }
        };
        self.nodes.push(Node { key, sup, lb, ub });
        self.cons.insert(key, id);
        id
    }
    fn cst(&mut self, w: u16, v: u128) -> Id {
        let v = v & mask(w);
        self.mk(Op::Const(v), w, [0; 3], v, v)
    }
    fn bc(&self, v: bool) -> Id {
        v as Id
    }
    fn w(&self, a: Id) -> u16 {
        self.nodes[a as usize].key.w
    }
    fn cv(&self, a: Id) -> Option<u128> {
        match self.nodes[a as usize].key.op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    fn bcv(&self, a: Id) -> Option<bool> {
        match a {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    fn ub(&self, a: Id) -> u128 {
        self.nodes[a as usize].ub
    }
    fn lb(&self, a: Id) -> u128 {
        self.nodes[a as usize].lb
    }

    // ---- term constructors (a and b have equal width) ----
    fn add(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_add(y)),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let (lb, ub) = match self.ub(a).checked_add(self.ub(b)) {
            Some(u) if u <= mask(w) => (self.lb(a) + self.lb(b), u),
            _ => (0, mask(w)),
        };
        self.mk(Op::Add, w, [a, b, 0], lb, ub)
    }
    fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.cst(w, 0);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_sub(y)),
            (_, Some(0)) => return a,
            _ => {}
        }
        let (lb, ub) = if self.lb(a) >= self.ub(b) {
            (self.lb(a) - self.ub(b), self.ub(a) - self.lb(b))
        } else {
            (0, mask(w))
        };
        self.mk(Op::Sub, w, [a, b, 0], lb, ub)
    }
    fn mul(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_mul(y)),
            (Some(0), _) => return a,
            (_, Some(0)) => return b,
            (Some(1), _) => return b,
            (_, Some(1)) => return a,
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let (lb, ub) = match self.ub(a).checked_mul(self.ub(b)) {
            Some(u) if u <= mask(w) => (self.lb(a) * self.lb(b), u),
            _ => (0, mask(w)),
        };
        self.mk(Op::Mul, w, [a, b, 0], lb, ub)
    }
    fn udiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.cst(w, x / y),
            (_, Some(1)) => return a,
            _ => {}
        }
        let ub = if self.lb(b) > 0 {
            self.ub(a) / self.lb(b)
        } else {
            mask(w)
        };
        self.mk(Op::Udiv, w, [a, b, 0], 0, ub)
    }
    fn urem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.cst(w, x % y),
            _ => {}
        }
        if self.lb(b) > self.ub(a) {
            return a;
        }
        let ub = if self.lb(b) > 0 {
            self.ub(a).min(self.ub(b) - 1)
        } else {
            self.ub(a)
        };
        self.mk(Op::Urem, w, [a, b, 0], 0, ub)
    }
    fn and(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.cst(w, x & y),
            (Some(0), _) => return a,
            (_, Some(0)) => return b,
            (Some(x), _) if x == mask(w) => return b,
            (_, Some(y)) if y == mask(w) => return a,
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let ub = self.ub(a).min(self.ub(b));
        self.mk(Op::And, w, [a, b, 0], 0, ub)
    }
    fn or(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.cst(w, x | y),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let ub = mask(bits(self.ub(a) | self.ub(b)).min(w));
        let lb = self.lb(a).max(self.lb(b));
        self.mk(Op::Or, w, [a, b, 0], lb, ub)
    }
    fn xor(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.cst(w, 0);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.cst(w, x ^ y),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let ub = mask(bits(self.ub(a) | self.ub(b)).min(w));
        self.mk(Op::Xor, w, [a, b, 0], 0, ub)
    }
    fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.cst(w, !x);
        }
        if let Op::Not = self.nodes[a as usize].key.op {
            return self.nodes[a as usize].key.a[0];
        }
        let (lb, ub) = (mask(w) - self.ub(a), mask(w) - self.lb(a));
        self.mk(Op::Not, w, [a, 0, 0], lb, ub)
    }
    fn shl(&mut self, a: Id, n: u16) -> Id {
        let w = self.w(a);
        if n == 0 {
            return a;
        }
        if n >= w {
            return self.cst(w, 0);
        }
        if let Some(x) = self.cv(a) {
            return self.cst(w, x << n);
        }
        let (lb, ub) = if self.ub(a) <= (mask(w) >> n) {
            (self.lb(a) << n, self.ub(a) << n)
        } else {
            (0, mask(w))
        };
        self.mk(Op::Shl(n), w, [a, 0, 0], lb, ub)
    }
    fn lshr(&mut self, a: Id, n: u16) -> Id {
        let w = self.w(a);
        if n == 0 {
            return a;
        }
        if n >= w {
            return self.cst(w, 0);
        }
        if let Some(x) = self.cv(a) {
            return self.cst(w, x >> n);
        }
        let (lb, ub) = (self.lb(a) >> n, self.ub(a) >> n);
        self.mk(Op::Lshr(n), w, [a, 0, 0], lb, ub)
    }
    fn extract(&mut self, a: Id, hi: u16, lo: u16) -> Id {
        let w = self.w(a);
        if lo == 0 && hi + 1 == w {
            return a;
        }
        let nw = hi - lo + 1;
        if let Some(x) = self.cv(a) {
            return self.cst(nw, x >> lo);
        }
        if lo == 0 {
            if let Op::Zext = self.nodes[a as usize].key.op {
                let inner = self.nodes[a as usize].key.a[0];
                let iw = self.w(inner);
                if iw == nw {
                    return inner;
                }
                if iw < nw {
                    return self.zext(inner, nw);
                }
                return self.extract(inner, hi, 0);
            }
        }
        let (lb, ub) = if lo == 0 && self.ub(a) <= mask(nw) {
            (self.lb(a), self.ub(a))
        } else {
            (0, mask(nw))
        };
        self.mk(Op::Extract(hi, lo), nw, [a, 0, 0], lb, ub)
    }
    fn zext(&mut self, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        assert!(w >= aw);
        if w == aw {
            return a;
        }
        if let Some(x) = self.cv(a) {
            return self.cst(w, x);
        }
        if let Op::Zext = self.nodes[a as usize].key.op {
            let inner = self.nodes[a as usize].key.a[0];
            return self.zext(inner, w);
        }
        let (lb, ub) = (self.lb(a), self.ub(a));
        self.mk(Op::Zext, w, [a, 0, 0], lb, ub)
    }
    /// resize to width w; the value must fit
    fn fit(&mut self, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        if w == aw {
            a
        } else if w > aw {
            self.zext(a, w)
        } else {
            debug_assert!(self.ub(a) <= mask(w));
            self.extract(a, w - 1, 0)
        }
    }
    fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match self.bcv(c) {
            Some(true) => return a,
            Some(false) => return b,
            None => {}
        }
        let w = self.w(a);
        if w == 0 {
            // boolean ite
            let x = self.band(c, a);
            let nc = self.bnot(c);
            let y = self.band(nc, b);
            return self.bor(x, y);
        }
        let (lb, ub) = (self.lb(a).min(self.lb(b)), self.ub(a).max(self.ub(b)));
        self.mk(Op::Ite, w, [c, a, b], lb, ub)
    }
    fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return 1;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.bc(x == y);
        }
        if self.ub(a) < self.lb(b) || self.ub(b) < self.lb(a) {
            return 0;
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::Eq, 0, [a, b, 0], 0, 1)
    }
    fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return 0;
        }
        if self.ub(a) < self.lb(b) {
            return 1;
        }
        if self.lb(a) >= self.ub(b) {
            return 0;
        }
        self.mk(Op::Ult, 0, [a, b, 0], 0, 1)
    }
    fn ule(&mut self, a: Id, b: Id) -> Id {
        let x = self.ult(b, a);
        self.bnot(x)
    }
    fn bnot(&mut self, a: Id) -> Id {
        match self.bcv(a) {
            Some(v) => return self.bc(!v),
            None => {}
        }
        if let Op::BNot = self.nodes[a as usize].key.op {
            return self.nodes[a as usize].key.a[0];
        }
        self.mk(Op::BNot, 0, [a, 0, 0], 0, 1)
    }
    fn band(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match (self.bcv(a), self.bcv(b)) {
            (Some(false), _) | (_, Some(false)) => return 0,
            (Some(true), _) => return b,
            (_, Some(true)) => return a,
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::BAnd, 0, [a, b, 0], 0, 1)
    }
    fn bor(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match (self.bcv(a), self.bcv(b)) {
            (Some(true), _) | (_, Some(true)) => return 1,
            (Some(false), _) => return b,
            (_, Some(false)) => return a,
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::BOr, 0, [a, b, 0], 0, 1)
    }

    // ---- exact natural-number arithmetic on top (widths grow) ----
    fn common(&mut self, a: Id, b: Id, w: u16) -> (Id, Id) {
        let w = w.max(bits(self.ub(a))).max(bits(self.ub(b)));
        if w > 128 {
            limit("term wider than 128 bits");
        }
        (self.fit(a, w), self.fit(b, w))
    }

    fn show(&self, id: Id, depth: usize) -> String {
        let k = self.nodes[id as usize].key;
        if depth == 0 {
            return format!("#{id}");
        }
        let s = |i: usize| self.show(k.a[i], depth - 1);
        match k.op {
            Op::Const(v) => format!("{v}"),
            Op::Var(i) => format!("x{i}"),
            Op::True | Op::False => format!("{:?}", k.op),
            Op::InvVar(_) | Op::Not | Op::Shl(_) | Op::Lshr(_) | Op::Extract(..) | Op::Zext | Op::Bound(_) | Op::BNot => format!("{:?}({})", k.op, s(0)),
            Op::Ite => format!("Ite({}, {}, {})", s(0), s(1), s(2)),
            _ => format!("{:?}({}, {})", k.op, s(0), s(1)),
        }
    }
    // ---- evaluation under a model ----
    fn eval(&self, m: &ModelVals, id: Id) -> u128 {
        {
            let memo = m.memo.borrow();
            if let Some(Some(v)) = memo.get(id as usize) {
                return *v;
            }
        }
        let n = &self.nodes[id as usize];
        let k = n.key;
        let w = k.w;
        let ev = |i: usize| self.eval(m, k.a[i]);
        let v = match k.op {
            Op::Const(v) => v,
            Op::Var(i) => m.vars.get(i as usize).copied().unwrap_or(0),
            Op::InvVar(p) => inv_mod(ev(0), p),
            Op::Add => ev(0).wrapping_add(ev(1)) & mask(w),
            Op::Sub => ev(0).wrapping_sub(ev(1)) & mask(w),
            Op::Mul => ev(0).wrapping_mul(ev(1)) & mask(w),
            Op::Udiv => {
                let d = ev(1);
                if d == 0 {
                    mask(w)
                } else {
                    ev(0) / d
                }
            }
            Op::Urem => {
                let d = ev(1);
                if d == 0 {
                    ev(0)
                } else {
                    ev(0) % d
                }
            }
            Op::And => ev(0) & ev(1),
            Op::Or => ev(0) | ev(1),
            Op::Xor => ev(0) ^ ev(1),
            Op::Not => !ev(0) & mask(w),
            Op::Shl(n) => (ev(0) << n) & mask(w),
            Op::Lshr(n) => ev(0) >> n,
            Op::Extract(_, lo) => (ev(0) >> lo) & mask(w),
            Op::Zext | Op::Bound(_) => ev(0),
            Op::Ite => {
                if ev(0) == 1 {
                    ev(1)
                } else {
                    ev(2)
                }
            }
            Op::Eq => (ev(0) == ev(1)) as u128,
            Op::Ult => (ev(0) < ev(1)) as u128,
            Op::Ule => (ev(0) <= ev(1)) as u128,
            Op::True => 1,
            Op::False => 0,
            Op::BNot => 1 - ev(0),
            Op::BAnd => ev(0) & ev(1),
            Op::BOr => ev(0) | ev(1),
        };
        let mut memo = m.memo.borrow_mut();
        if memo.len() <= id as usize {
            memo.resize(id as usize + 1 + 256, None);
        }
        memo[id as usize] = Some(v);
        v
    }

    // ---- Z3 ----
    fn z3_init(&mut self) {
        if self.z3.is_some() {
            return;
        }
        unsafe {
            z3::Z3_global_param_set(z3::cs("smt.case_split").as_ptr(), z3::cs("0").as_ptr());
            let cfg = z3::Z3_mk_config();
            let ctx = z3::Z3_mk_context_rc(cfg);
            z3::Z3_del_config(cfg);
            z3::Z3_set_error_handler(ctx, Some(z3::on_error));
            self.z3 = Some(Z3State {
                ctx,
                solver: std::ptr::null_mut(),
                cache: vec![],
                path_ids: vec![],
                lits: HashMap::new(),
                var_asts: vec![],
            });
        }
        self.z3_new_solver();
    }
    fn z3_new_solver(&mut self) {
        let timeout = self.cfg.query_timeout_ms.min(self.cfg.easy_timeout_ms);
        let z = self.z3.as_mut().unwrap();
        unsafe {
            if !z.solver.is_null() {
                z3::Z3_solver_dec_ref(z.ctx, z.solver);
            }
            z.solver = z3::Z3_mk_simple_solver(z.ctx);
            z3::Z3_solver_inc_ref(z.ctx, z.solver);
            z3_timeout(z.ctx, z.solver, timeout);
            z.lits.clear();
        }
    }
    fn ast(&mut self, id: Id) -> z3::Ast {
        let z = self.z3.as_ref().unwrap();
        if let Some(a) = z.cache.get(id as usize) {
            if !a.is_null() {
                return *a;
            }
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![id];
        while let Some(&top) = stack.last() {
            if self.cached(top) {
                stack.pop();
                continue;
            }
            let k = self.nodes[top as usize].key;
            let nargs = nargs(k.op);
            let mut pending = false;
            for i in 0..nargs {
                if !self.cached(k.a[i]) {
                    stack.push(k.a[i]);
                    pending = true;
                }
            }
            if pending {
                continue;
            }
            stack.pop();
            let a = self.build_ast(top);
            let z = self.z3.as_mut().unwrap();
            unsafe { z3::Z3_inc_ref(z.ctx, a) };
            if z.cache.len() <= top as usize {
                z.cache.resize(top as usize + 1024, std::ptr::null_mut());
            }
            z.cache[top as usize] = a;
        }
        self.z3.as_ref().unwrap().cache[id as usize]
    }
    fn cached(&self, id: Id) -> bool {
        self.z3
            .as_ref()
            .unwrap()
            .cache
            .get(id as usize)
            .is_some_and(|a| !a.is_null())
    }
    fn build_ast(&mut self, id: Id) -> z3::Ast {
        let k = self.nodes[id as usize].key;
        let aw = if nargs(k.op) > 0 { self.w(k.a[0]) } else { 0 };
        let z = self.z3.as_mut().unwrap();
        let c = z.ctx;
        let x = |i: usize| z.cache[k.a[i] as usize];
        unsafe {
            match k.op {
                Op::Const(v) => {
                    let s = z3::Z3_mk_bv_sort(c, k.w as u32);
                    z3::Z3_mk_numeral(c, z3::cs(&v.to_string()).as_ptr(), s)
                }
                Op::Var(i) => {
                    let s = z3::Z3_mk_bv_sort(c, k.w as u32);
                    let sym = z3::Z3_mk_string_symbol(c, z3::cs(&format!("v{i}")).as_ptr());
                    let a = z3::Z3_mk_const(c, sym, s);
                    z3::Z3_inc_ref(c, a);
                    let i = i as usize;
                    if z.var_asts.len() <= i {
                        z.var_asts.resize(i + 1, std::ptr::null_mut());
                    }
                    z.var_asts[i] = a;
                    a
                }
                Op::InvVar(_) => {
                    let s = z3::Z3_mk_bv_sort(c, k.w as u32);
                    let sym = z3::Z3_mk_string_symbol(c, z3::cs(&format!("inv{id}")).as_ptr());
                    z3::Z3_mk_const(c, sym, s)
                }
                Op::Add => z3::Z3_mk_bvadd(c, x(0), x(1)),
                Op::Sub => z3::Z3_mk_bvsub(c, x(0), x(1)),
                Op::Mul => z3::Z3_mk_bvmul(c, x(0), x(1)),
                Op::Udiv => z3::Z3_mk_bvudiv(c, x(0), x(1)),
                Op::Urem => z3::Z3_mk_bvurem(c, x(0), x(1)),
                Op::And => z3::Z3_mk_bvand(c, x(0), x(1)),
                Op::Or => z3::Z3_mk_bvor(c, x(0), x(1)),
                Op::Xor => z3::Z3_mk_bvxor(c, x(0), x(1)),
                Op::Not => z3::Z3_mk_bvnot(c, x(0)),
                Op::Shl(n) | Op::Lshr(n) => {
                    let s = z3::Z3_mk_bv_sort(c, k.w as u32);
                    let amt = z3::Z3_mk_numeral(c, z3::cs(&n.to_string()).as_ptr(), s);
                    z3::Z3_inc_ref(c, amt);
                    if matches!(k.op, Op::Shl(_)) {
                        z3::Z3_mk_bvshl(c, x(0), amt)
                    } else {
                        z3::Z3_mk_bvlshr(c, x(0), amt)
                    }
                }
                Op::Extract(hi, lo) => z3::Z3_mk_extract(c, hi as u32, lo as u32, x(0)),
                Op::Zext => z3::Z3_mk_zero_ext(c, (k.w - aw) as u32, x(0)),
                Op::Bound(_) => x(0),
                Op::Ite => z3::Z3_mk_ite(c, x(0), x(1), x(2)),
                Op::Eq => z3::Z3_mk_eq(c, x(0), x(1)),
                Op::Ult => z3::Z3_mk_bvult(c, x(0), x(1)),
                Op::Ule => z3::Z3_mk_bvule(c, x(0), x(1)),
                Op::True => z3::Z3_mk_true(c),
                Op::False => z3::Z3_mk_false(c),
                Op::BNot => z3::Z3_mk_not(c, x(0)),
                Op::BAnd => z3::Z3_mk_and(c, 2, [x(0), x(1)].as_ptr()),
                Op::BOr => z3::Z3_mk_or(c, 2, [x(0), x(1)].as_ptr()),
            }
        }
    }
    fn lit(&mut self, id: Id) -> z3::Ast {
        if let Some(l) = self.z3.as_ref().unwrap().lits.get(&id) {
            return *l;
        }
        if let Op::BNot = self.nodes[id as usize].key.op {
            let inner = self.nodes[id as usize].key.a[0];
            let l = self.lit(inner);
            let z = self.z3.as_mut().unwrap();
            let a = unsafe { z3::Z3_mk_not(z.ctx, l) };
            unsafe { z3::Z3_inc_ref(z.ctx, a) };
            z.lits.insert(id, a);
            return a;
        }
        let a = self.ast(id);
        let z = self.z3.as_mut().unwrap();
        unsafe {
            let s = z3::Z3_mk_bool_sort(z.ctx);
            let sym = z3::Z3_mk_string_symbol(z.ctx, z3::cs(&format!("c{id}")).as_ptr());
            let l = z3::Z3_mk_const(z.ctx, sym, s);
            z3::Z3_inc_ref(z.ctx, l);
            let d = z3::Z3_mk_eq(z.ctx, l, a);
            z3::Z3_inc_ref(z.ctx, d);
            z3::Z3_solver_assert(z.ctx, z.solver, d);
            z.lits.insert(id, l);
            l
        }
    }
    fn z3_reset_if_large(&mut self) {
        if self.z3.as_ref().unwrap().lits.len() >= self.cfg.reset_lits {
            self.z3_new_solver();
        }
    }
    fn z3_push_assert(&mut self, id: Id) {
        let z = self.z3.as_mut().unwrap();
        z.path_ids.push(id);
    }
    fn z3_pop_to(&mut self, n: usize) {
        let z = self.z3.as_mut().unwrap();
        z.path_ids.truncate(n);
    }
    /// Is the path condition together with `id` satisfiable?
    /// Some(model) if sat, None if unsat; Err on unknown.
    /// Only the path conditions connected to `id` through shared variables are
    /// sent to the solver: the others are satisfied by the current model.
    fn query(&mut self, id: Id) -> Result<Option<Rc<ModelVals>>, ()> {
        self.query_from(id, true)
    }
    fn query_from(&mut self, id: Id, slice: bool) -> Result<Option<Rc<ModelVals>>, ()> {
        if id == 0 {
            return Ok(None);
        }
        let path = self.z3.as_ref().unwrap().path_ids.clone();
        let mut rel: Vec<Id> = vec![id];
        let mut sup: Vec<u64> = self.nodes[id as usize].sup.to_vec();
        if slice {
            let mut rest: Vec<Id> = path.iter().copied().filter(|c| *c > 1).collect();
            rest.sort_unstable();
            rest.dedup();
            loop {
                let n = rel.len();
                rest.retain(|c| {
                    let s = &self.nodes[*c as usize].sup;
                    if overlaps(s, &sup) {
                        if !subset(s, &sup) {
                            sup = union(&sup, s);
                        }
                        rel.push(*c);
                        false
                    } else {
                        true
                    }
                });
                if rel.len() == n {
                    break;
                }
            }
        } else {
            for c in path {
                if c > 1 {
                    sup = union(&sup, &self.nodes[c as usize].sup);
                    rel.push(c);
                }
            }
        }
        rel.sort_unstable();
        rel.dedup();
        let mut cached = self.qcache.get(&rel).cloned();
        if cached.is_none() {
            if let Some(cs) = self.cores.get(&id) {
                if cs
                    .iter()
                    .any(|c| c.iter().all(|x| rel.binary_search(x).is_ok()))
                {
                    cached = Some(None);
                }
            }
        }
        let res = match cached {
            Some(r) => {
                self.rep.cache_hits += 1;
                Ok(r)
            }
            None => {
                let (r, core) = self.solve(&rel, &sup);
                if let Some(core) = core {
                    if core.contains(&id) {
                        let v = self.cores.entry(id).or_default();
                        if v.len() < 200 {
                            v.push(core);
                        }
                    }
                }
                if let Ok(r) = &r {
                    if self.qcache.len() > 2_000_000 {
                        self.qcache.clear();
                    }
                    self.qcache.insert(rel, r.clone());
                }
                r
            }
        };
        match res {
            Ok(Some(vals)) => {
                let mut vars = self.model.vars.clone();
                for (i, v) in vals.iter() {
                    let i = *i as usize;
                    if vars.len() <= i {
                        vars.resize(i + 1, 0);
                    }
                    vars[i] = *v;
                }
                Ok(Some(Rc::new(ModelVals {
                    vars,
                    memo: RefCell::new(vec![]),
                })))
            }
            Ok(None) => Ok(None),
            Err(()) => Err(()),
        }
    }
    fn read_model(z: &Z3State, solver: z3::Solver, sup: &[u64]) -> Rc<Vec<(u32, u128)>> {
        unsafe {
            let m = z3::Z3_solver_get_model(z.ctx, solver);
            z3::Z3_model_inc_ref(z.ctx, m);
            let mut vals = vec![];
            for (i, va) in z.var_asts.iter().enumerate() {
                if va.is_null() || sup.get(i / 64).copied().unwrap_or(0) >> (i % 64) & 1 == 0 {
                    continue;
                }
                let mut v = std::ptr::null_mut();
                if z3::Z3_model_eval(z.ctx, m, *va, true, &mut v) {
                    z3::Z3_inc_ref(z.ctx, v);
                    let x = z3::st(z3::Z3_get_numeral_string(z.ctx, v))
                        .parse()
                        .unwrap_or(0);
                    z3::Z3_dec_ref(z.ctx, v);
                    vals.push((i as u32, x));
                }
            }
            z3::Z3_model_dec_ref(z.ctx, m);
            Rc::new(vals)
        }
    }
    #[allow(clippy::type_complexity)]
    fn solve(
        &mut self,
        rel: &[Id],
        sup: &[u64],
    ) -> (Result<Option<Rc<Vec<(u32, u128)>>>, ()>, Option<Vec<Id>>) {
        let t0 = Instant::now();
        self.z3_reset_if_large();
        let asm: Vec<z3::Ast> = rel.iter().map(|i| self.lit(*i)).collect();
        let z = self.z3.as_ref().unwrap();
        let r = unsafe {
            z3::Z3_solver_check_assumptions(z.ctx, z.solver, asm.len() as u32, asm.as_ptr())
        };
        let mut core = None;
        let mut res = match r {
            1 => Ok(Some(Self::read_model(z, z.solver, sup))),
            -1 => {
                unsafe {
                    let v = z3::Z3_solver_get_unsat_core(z.ctx, z.solver);
                    z3::Z3_ast_vector_inc_ref(z.ctx, v);
                    let n = z3::Z3_ast_vector_size(z.ctx, v);
                    let mut ids = vec![];
                    for i in 0..n {
                        let a = z3::Z3_ast_vector_get(z.ctx, v, i);
                        match asm.iter().position(|x| *x == a) {
                            Some(k) => ids.push(rel[k]),
                            None => {
                                ids.clear();
                                break;
                            }
                        }
                    }
                    z3::Z3_ast_vector_dec_ref(z.ctx, v);
                    if !ids.is_empty() {
                        core = Some(ids);
                    }
                }
                Ok(None)
            }
            _ => Err(()),
        };
        if res.is_err() {
            // hard query: plain bit-blasting solver
            self.rep.hard_queries += 1;
            let asts: Vec<z3::Ast> = rel.iter().map(|i| self.ast(*i)).collect();
            let z = self.z3.as_ref().unwrap();
            unsafe {
                let logic = z3::Z3_mk_string_symbol(z.ctx, z3::cs("QF_BV").as_ptr());
                let s = z3::Z3_mk_solver_for_logic(z.ctx, logic);
                z3::Z3_solver_inc_ref(z.ctx, s);
                z3_timeout(z.ctx, s, self.cfg.query_timeout_ms);
                for a in &asts {
                    z3::Z3_solver_assert(z.ctx, s, *a);
                }
                res = match z3::Z3_solver_check(z.ctx, s) {
                    1 => Ok(Some(Self::read_model(z, s, sup))),
                    -1 => Ok(None),
                    _ => Err(()),
                };
                z3::Z3_solver_dec_ref(z.ctx, s);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.rep.queries += 1;
        self.rep.solver_s += dt;
        if dt > 5.0 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!(
                "slow query {dt:.1}s -> {:?}",
                res.as_ref().map(|r| r.is_some())
            );
        }
        match &res {
            Ok(Some(_)) => self.rep.sat += 1,
            Ok(None) => self.rep.unsat += 1,
            Err(()) => self.rep.unknown += 1,
        }
        (res, core)
    }

    fn over_deadline(&self) -> bool {
        self.start.elapsed() > self.cfg.deadline
    }
    fn snapshot(&self, m: &ModelVals) -> (Vec<Input>, Vec<usize>) {
        let inputs = self
            .inputs
            .iter()
            .map(|(n, id)| Input {
                name: n.clone(),
                value: self.eval(m, *id),
            })
            .collect();
        let choices = self
            .trace
            .iter()
            .take(self.pos)
            .filter_map(|e| match e {
                Entry::Choice { cur, .. } => Some(*cur),
                _ => None,
            })
            .collect();
        (inputs, choices)
    }
}

unsafe fn z3_timeout(ctx: z3::Ctx, s: z3::Solver, ms: u32) {
    let p = z3::Z3_mk_params(ctx);
    z3::Z3_params_inc_ref(ctx, p);
    let k = z3::Z3_mk_string_symbol(ctx, z3::cs("timeout").as_ptr());
    z3::Z3_params_set_uint(ctx, p, k, ms);
    z3::Z3_solver_set_params(ctx, s, p);
}
fn subset(a: &[u64], b: &[u64]) -> bool {
    a.iter()
        .enumerate()
        .all(|(i, x)| x & !b.get(i).copied().unwrap_or(0) == 0)
}
fn overlaps(a: &[u64], b: &[u64]) -> bool {
    a.iter().zip(b).any(|(x, y)| x & y != 0)
}
fn union(a: &[u64], b: &[u64]) -> Vec<u64> {
    (0..a.len().max(b.len()))
        .map(|i| a.get(i).copied().unwrap_or(0) | b.get(i).copied().unwrap_or(0))
        .collect()
}

fn nargs(op: Op) -> usize {
    match op {
        Op::Const(_) | Op::Var(_) | Op::True | Op::False => 0,
        Op::InvVar(_)
        | Op::Not
        | Op::Shl(_)
        | Op::Lshr(_)
        | Op::Extract(..)
        | Op::Zext
        | Op::Bound(_)
        | Op::BNot => 1,
        Op::Ite => 3,
        _ => 2,
    }
}

pub fn inv_mod(a: u128, p: u128) -> u128 {
    // p < 2^64 prime
    let (mut r, mut b, mut e) = (1u128, a % p, p - 2);
    if b == 0 {
        return 0;
    }
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}

// ------------------------------------------------------------------ public API

impl B {
    pub const TRUE: B = B(1);
    pub const FALSE: B = B(0);
    pub fn lit(v: bool) -> B {
        B(v as Id)
    }
    pub fn not(self) -> B {
        B(g().bnot(self.0))
    }
    pub fn and(self, o: B) -> B {
        B(g().band(self.0, o.0))
    }
    pub fn or(self, o: B) -> B {
        B(g().bor(self.0, o.0))
    }
    pub fn implies(self, o: B) -> B {
        self.not().or(o)
    }
    pub fn iff(self, o: B) -> B {
        self.and(o).or(self.not().and(o.not()))
    }
    pub fn as_const(self) -> Option<bool> {
        match self.0 {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn all(it: impl IntoIterator<Item = B>) -> B {
        it.into_iter().fold(B::TRUE, |a, b| a.and(b))
    }
    pub fn any(it: impl IntoIterator<Item = B>) -> B {
        it.into_iter().fold(B::FALSE, |a, b| a.or(b))
    }
}

/// Exact natural numbers (never overflow: widths grow with the bounds).
impl Bv {
    pub fn c(v: u128) -> Bv {
        Bv(g().cst(bits(v), v))
    }
    pub fn as_const(self) -> Option<u128> {
        g().cv(self.0)
    }
    pub fn ub(self) -> u128 {
        g().ub(self.0)
    }
    pub fn lb(self) -> u128 {
        g().lb(self.0)
    }
    pub fn add(self, o: Bv) -> Bv {
        let mut e = g();
        let Some(u) = e.ub(self.0).checked_add(e.ub(o.0)) else {
            drop(e);
            limit("nat add > 128 bits")
        };
        let (a, b) = e.common(self.0, o.0, bits(u));
        Bv(e.add(a, b))
    }
    pub fn mul(self, o: Bv) -> Bv {
        let mut e = g();
        let Some(u) = e.ub(self.0).checked_mul(e.ub(o.0)) else {
            drop(e);
            limit("nat mul > 128 bits")
        };
        let (a, b) = e.common(self.0, o.0, bits(u));
        Bv(e.mul(a, b))
    }
    /// self - o, caller guarantees self >= o on the path
    pub fn sub_unchecked(self, o: Bv) -> Bv {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        let r = e.sub(a, b);
        // we know the result is at most ub(a): narrow if possible
        let w = bits(e.ub(a));
        if w < e.w(r) {
            Bv(e.extract(r, w - 1, 0))
        } else {
            Bv(r)
        }
    }
    pub fn div(self, o: Bv) -> Bv {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        Bv(e.udiv(a, b))
    }
    pub fn rem(self, o: Bv) -> Bv {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        let r = e.urem(a, b);
        let w = bits(e.ub(r));
        Bv(e.fit(r, w))
    }
    pub fn and(self, o: Bv) -> Bv {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        Bv(e.and(a, b))
    }
    pub fn or(self, o: Bv) -> Bv {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        Bv(e.or(a, b))
    }
    pub fn xor(self, o: Bv) -> Bv {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        Bv(e.xor(a, b))
    }
    /// bitwise complement within w bits (value must fit)
    pub fn not_w(self, w: u16) -> Bv {
        let mut e = g();
        let a = e.fit(self.0, w);
        Bv(e.not(a))
    }
    /// exact shift left (width grows)
    pub fn shl(self, n: u16) -> Bv {
        let mut e = g();
        let w = bits(e.ub(self.0)) as u32 + n as u32;
        if w > 128 {
            drop(e);
            limit("nat shl > 128 bits")
        }
        let a = e.fit(self.0, w as u16);
        Bv(e.shl(a, n))
    }
    pub fn shr(self, n: u16) -> Bv {
        let mut e = g();
        Bv(e.lshr(self.0, n))
    }
    /// low w bits
    pub fn trunc(self, w: u16) -> Bv {
        let mut e = g();
        if e.ub(self.0) <= mask(w) {
            Bv(e.fit(self.0, w))
        } else {
            Bv(e.extract(self.0, w - 1, 0))
        }
    }
    pub fn bit(self, n: u16) -> B {
        let mut e = g();
        if n >= e.w(self.0) {
            return B::FALSE;
        }
        let x = e.extract(self.0, n, n);
        let one = e.cst(1, 1);
        B(e.eq(x, one))
    }
    pub fn equals(self, o: Bv) -> B {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        B(e.eq(a, b))
    }
    pub fn lt(self, o: Bv) -> B {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        B(e.ult(a, b))
    }
    pub fn le(self, o: Bv) -> B {
        let mut e = g();
        let (a, b) = e.common(self.0, o.0, 1);
        B(e.ule(a, b))
    }
    pub fn ite(c: B, a: Bv, b: Bv) -> Bv {
        let mut e = g();
        let (x, y) = e.common(a.0, b.0, 1);
        Bv(e.ite(c.0, x, y))
    }
    pub fn ite_b(c: B, a: B, b: B) -> B {
        c.and(a).or(c.not().and(b))
    }
    /// the same value, known to be at most `max` (caller's obligation)
    pub fn bounded(self, max: u128) -> Bv {
        let mut e = g();
        if e.ub(self.0) <= max {
            return self;
        }
        let w = bits(max);
        let a = if e.w(self.0) > w {
            e.extract(self.0, w - 1, 0)
        } else {
            self.0
        };
        if e.ub(a) <= max {
            return Bv(a);
        }
        let (w, lb) = (e.w(a), e.lb(self.0));
        Bv(e.mk(Op::Bound(max), w, [a, 0, 0], lb, max))
    }
    /// inverse modulo prime p (0 for 0); adds the defining assumption
    pub fn inv(self, p: u128) -> Bv {
        if let Some(v) = self.as_const() {
            return Bv::c(inv_mod(v, p));
        }
        let r = {
            let mut e = g();
            let w = bits(p - 1);
            let a = e.fit(self.0, w);
            Bv(e.mk(Op::InvVar(p), w, [a, 0, 0], 0, p - 1))
        };
        // the bound cannot be folded by the interval analysis: build it raw
        let below = {
            let mut e = g();
            let w = e.w(r.0);
            if p - 1 == mask(w) {
                B::TRUE
            } else {
                let b = e.cst(w, p - 1);
                let lt = e.mk(Op::Ult, 0, [b, r.0, 0], 0, 1);
                B(e.bnot(lt))
            }
        };
        let z = Bv::c(0);
        let prod = self.mul(r).rem(Bv::c(p));
        let def = B::any([
            self.equals(z).and(r.equals(z)),
            self.equals(z).not().and(prod.equals(Bv::c(1))),
        ])
        .and(below);
        assume_def(def);
        r
    }
}

/// A fresh symbolic input with values in `0..bound`.
pub fn fresh(name: &str, bound: u128) -> Bv {
    assert!(bound > 0);
    let (r, need) = {
        let mut e = g();
        let cnt = e.name_count.entry(name.to_string()).or_insert(0);
        *cnt += 1;
        let full = if *cnt == 1 {
            name.to_string()
        } else {
            format!("{name}#{cnt}")
        };
        match e.mode {
            Mode::Replay => {
                let i = e.rpos_i;
                e.rpos_i += 1;
                let v = e.replay_inputs.get(i).map(|x| x.value).unwrap_or(0);
                let v = if v >= bound { 0 } else { v };
                let id = e.cst(bits(v), v);
                e.inputs.push((full, id));
                return Bv(id);
            }
            Mode::Explore => {
                let w = bits(bound - 1);
                let key = format!("{full}:{bound}");
                let idx = match e.var_by_name.get(&key) {
                    Some(i) => *i,
                    None => {
                        let i = e.var_names.len() as u32;
                        e.var_names.push(full.clone());
                        e.var_width.push(w);
                        e.var_by_name.insert(key, i);
                        i
                    }
                };
                let id = e.mk(Op::Var(idx), w, [0; 3], 0, bound - 1);
                e.inputs.push((full, id));
                let n = e.inputs.len();
                e.rep.sym_inputs_max = e.rep.sym_inputs_max.max(n);
                (id, bound - 1 != mask(w))
            }
            Mode::Off => panic!("fresh() outside a harness"),
        }
    };
    if need {
        // the bound cannot be folded by the interval analysis: build it raw
        let c = {
            let mut e = g();
            let w = e.w(r);
            let b = e.cst(w, bound - 1);
            let lt = e.mk(Op::Ult, 0, [b, r, 0], 0, 1);
            B(e.bnot(lt))
        };
        assume_def(c);
    }
    Bv(r)
}

/// Nondeterministic concrete choice, all alternatives are explored.
pub fn choose(n: usize) -> usize {
    assert!(n > 0);
    if n == 1 {
        return 0;
    }
    let mut e = g();
    match e.mode {
        Mode::Replay => {
            let i = e.rpos_c;
            e.rpos_c += 1;
            e.replay_choices.get(i).copied().unwrap_or(0).min(n - 1)
        }
        Mode::Explore => {
            let pos = e.pos;
            e.pos += 1;
            if pos < e.trace.len() {
                match &e.trace[pos] {
                    Entry::Choice { n: m, cur, .. } if *m == n => return *cur,
                    _ => {
                        drop(e);
                        limit("nondeterministic replay (choice)")
                    }
                }
            }
            let k = e
                .trace
                .iter()
                .filter(|t| matches!(t, Entry::Choice { .. }))
                .count();
            let (cur, last) = match e.cfg.force.get(k) {
                Some(f) if *f >= n => {
                    e.pos -= 1;
                    drop(e);
                    panic_any(AbortPath)
                }
                Some(f) => (*f, *f + 1),
                None => (0, n),
            };
            e.trace.push(Entry::Choice { n, cur, last });
            // keep solver levels aligned with trace
            e.z3_push_assert(1);
            cur
        }
        Mode::Off => panic!("choose() outside a harness"),
    }
}
pub fn choose_bool() -> bool {
    choose(2) == 1
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}

fn assume_def(c: B) {
    assume_inner(c, false)
}
/// Restrict the inputs.
pub fn assume(c: B) {
    assume_inner(c, true)
}
fn assume_inner(c: B, verify: bool) {
    match c.as_const() {
        Some(true) => return,
        Some(false) => panic_any(AbortPath),
        None => {}
    }
    let mut e = g();
    let pos = e.pos;
    e.pos += 1;
    if pos < e.trace.len() {
        match &e.trace[pos] {
            Entry::Assume { cond } if *cond == c.0 => return,
            _ => {
                drop(e);
                limit("nondeterministic replay (assume)")
            }
        }
    }
    let m = e.model.clone();
    let holds = e.eval(&m, c.0) == 1;
    let mut bad = false;
    if !holds || verify && false {
        match e.query(c.0) {
            Ok(Some(m)) => e.model = m,
            Ok(None) => bad = true,
            Err(()) => bad = true,
        }
    }
    if bad {
        e.pos -= 1;
        drop(e);
        panic_any(AbortPath)
    }
    e.trace.push(Entry::Assume { cond: c.0 });
    e.z3_push_assert(c.0);
}

/// Decide a condition, exploring both sides if both are feasible.
pub fn branch(c: B) -> bool {
    if let Some(v) = c.as_const() {
        return v;
    }
    let mut e = g();
    if e.mode != Mode::Explore {
        drop(e);
        panic!("symbolic branch outside exploration");
    }
    let pos = e.pos;
    e.pos += 1;
    if pos < e.trace.len() {
        match &e.trace[pos] {
            Entry::Branch { cond, taken, .. } if *cond == c.0 => return *taken,
            _ => {
                drop(e);
                limit("nondeterministic replay (branch)")
            }
        }
    }
    e.rep.branches += 1;
    if e.over_deadline() {
        drop(e);
        limit("deadline")
    }
    let m = e.model.clone();
    let v = e.eval(&m, c.0) == 1;
    let other = if v { e.bnot(c.0) } else { c.0 };
    let (alt, alt_model) = match e.query(other) {
        Ok(Some(m)) => (true, Some(m)),
        Ok(None) => (false, None),
        Err(()) => (false, None), // counted as unknown: job is reported incomplete
    };
    e.trace.push(Entry::Branch {
        cond: c.0,
        taken: v,
        alt,
        alt_model,
    });
    let asserted = if v { c.0 } else { e.bnot(c.0) };
    e.z3_push_assert(asserted);
    v
}

/// Enumerate the feasible values of a term on this path (forks).
pub fn concretize(t: Bv) -> u128 {
    if let Some(v) = t.as_const() {
        return v;
    }
    let mut guard = 0;
    loop {
        let mut e = g();
        if e.mode != Mode::Explore {
            drop(e);
            panic!("symbolic concretize outside exploration");
        }
        let pos = e.pos;
        e.pos += 1;
        if pos < e.trace.len() {
            match &e.trace[pos] {
                Entry::Concretize { term, v, taken, .. } if *term == t.0 => {
                    if *taken {
                        return *v;
                    }
                    continue;
                }
                _ => {
                    drop(e);
                    limit("nondeterministic replay (concretize)")
                }
            }
        }
        guard += 1;
        if guard > 600 {
            drop(e);
            limit("too many concrete values")
        }
        e.rep.branches += 1;
        let m = e.model.clone();
        let v = e.eval(&m, t.0);
        let w = e.w(t.0);
        let cv = e.cst(w, v);
        let c = e.eq(t.0, cv);
        let nc = e.bnot(c);
        let (alt, alt_model) = match e.query(nc) {
            Ok(Some(m)) => (true, Some(m)),
            _ => (false, None),
        };
        e.trace.push(Entry::Concretize {
            term: t.0,
            v,
            taken: true,
            alt,
            alt_model,
        });
        e.z3_push_assert(c);
        return v;
    }
}

/// Mark a point of interest as reached on a feasible path.
pub fn cover(label: &str) {
    let mut e = g();
    if e.mode == Mode::Explore {
        *e.rep.covers.entry(label.to_string()).or_insert(0) += 1;
    }
}

/// Free-form description, recorded only while replaying.
pub fn note(f: impl FnOnce() -> String) {
    let r = g().mode == Mode::Replay;
    if r {
        let s = f();
        g().notes.push(s);
    }
}
pub fn replaying() -> bool {
    g().mode == Mode::Replay
}

/// The property: `c` must hold for every input on this path.
pub fn check(c: B, msg: &str) {
    let mut e = g();
    match e.mode {
        Mode::Replay => {
            let ok = c.as_const().expect("non-constant check in replay");
            if !ok {
                drop(e);
                panic_any(CheckFailed(msg.to_string()));
            }
        }
        Mode::Explore => {
            // Checks inside an already explored prefix were discharged before
            // under a weaker path condition.
            if e.pos < e.trace.len() || e.suspend_checks {
                return;
            }
            e.rep.checks += 1;
            if c == B::TRUE {
                e.rep.checks_trivial += 1;
                return;
            }
            let m = e.model.clone();
            let model = if e.eval(&m, c.0) == 0 {
                Some(m)
            } else {
                let n = e.bnot(c.0);
                match e.query(n) {
                    Ok(r) => r,
                    Err(()) => {
                        e.rep.undecided_checks += 1;
                        None
                    }
                }
            };
            if let Some(m) = model {
                if std::env::var("SYMX_DEBUG").is_ok() {
                    let path = e.z3.as_ref().unwrap().path_ids.clone();
                    for c in path {
                        eprintln!("path {} = {}", e.show(c, 12), e.eval(&m, c));
                    }
                    eprintln!("check {} = {}", e.show(c.0, 40), e.eval(&m, c.0));
                }
                let (inputs, choices) = e.snapshot(&m);
                if e.rep.violation.is_none() {
                    e.rep.violation = Some(Violation {
                        msg: msg.to_string(),
                        inputs,
                        choices,
                        is_panic: false,
                    });
                }
                drop(e);
                panic_any(AbortPath);
            }
        }
        Mode::Off => panic!("check outside harness"),
    }
}
pub fn check_bool(c: bool, msg: &str) {
    check(B::lit(c), msg)
}

/// Hash symbolic-capable values by value (only sound when everything is concrete).
pub fn set_concrete_hash(v: bool) {
    g().concrete_hash = v;
}
pub fn concrete_hash() -> bool {
    g().concrete_hash
}
pub fn z3_version() -> String {
    z3::version()
}

fn payload_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

enum End {
    Normal,
    Abort,
    Limit(String),
    Check(String),
    Panic(String),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn run_in_thread(f: &(dyn Fn() + Sync)) -> End {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                let r = catch_unwind(AssertUnwindSafe(f));
                match r {
                    Ok(()) => End::Normal,
                    Err(p) => {
                        if p.is::<AbortPath>() {
                            End::Abort
                        } else if let Some(l) = p.downcast_ref::<EngineLimit>() {
                            End::Limit(l.0.clone())
                        } else if let Some(l) = p.downcast_ref::<CheckFailed>() {
                            End::Check(l.0.clone())
                        } else {
                            let loc = LAST_PANIC.with(|l| l.borrow().clone());
                            End::Panic(format!("{} {}", payload_msg(p.as_ref()), loc))
                        }
                    }
                }
            })
            .unwrap();
        h.join().unwrap()
    })
}

/// Runs a piece of the code under test; a panic of that code becomes an error
/// (the engine's own control flow passes through).
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<AbortPath>() || p.is::<EngineLimit>() || p.is::<CheckFailed>() {
                std::panic::resume_unwind(p)
            }
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(format!("{} {}", payload_msg(p.as_ref()), loc))
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<AbortPath>() || p.is::<EngineLimit>() || p.is::<CheckFailed>() {
            return;
        }
        let loc = info
            .location()
            .map(|l| format!("at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc.clone());
        if std::env::var("SYMX_TRACE").is_ok() {
            eprintln!("[panic in path] {} {}", payload_msg(p), loc);
        }
    }));
}

/// Explore all paths of the harness.
pub fn explore(cfg: Config, f: &(dyn Fn() + Sync)) -> Report {
    {
        let mut e = g();
        e.mode = Mode::Explore;
        e.cfg = cfg.clone();
        e.rep = Report::default();
        e.trace.clear();
        e.start = Instant::now();
        e.model = Rc::new(ModelVals {
            vars: vec![],
            memo: RefCell::new(vec![]),
        });
        e.z3_init();
        e.z3_new_solver();
        e.z3_pop_to(0);
    }
    let start = Instant::now();
    let mut complete = true;
    // suspended paths with unexplored alternatives (random order only)
    let mut work: Vec<Vec<Entry>> = vec![];
    let mut rng = cfg.order_seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move |n: usize| {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        (rng >> 11) as usize % n
    };
    loop {
        {
            let mut e = g();
            e.pos = 0;
            e.inputs.clear();
            e.name_count.clear();
            e.rep.paths += 1;
        }
        let end = run_in_thread(f);
        let mut e = g();
        match end {
            End::Normal => {
                let n = e.rep.paths;
                if n <= 8 || (n & (n - 1)) == 0 || n % 1009 == 0 && e.rep.samples.len() < 60 {
                    let md = e.model.clone();
                    let s = e.snapshot(&md);
                    e.rep.samples.push(s);
                }
            }
            End::Abort => e.rep.aborted_paths += 1,
            End::Limit(m) => {
                e.rep.limit_paths += 1;
                if e.rep.limit_msgs.len() < 5 && !e.rep.limit_msgs.contains(&m) {
                    e.rep.limit_msgs.push(m);
                }
                complete = false;
            }
            End::Check(m) => panic!("CheckFailed in explore: {m}"),
            End::Panic(m) => {
                if cfg.panic_is_violation {
                    let md = e.model.clone();
                    let (inputs, choices) = e.snapshot(&md);
                    if e.rep.violation.is_none() {
                        e.rep.violation = Some(Violation {
                            msg: format!("panic: {m}"),
                            inputs,
                            choices,
                            is_panic: true,
                        });
                    }
                } else {
                    *e.rep.covers.entry(format!("panic: {m}")).or_insert(0) += 1;
                }
            }
        }
        if e.rep.violation.is_some() && cfg.stop_on_violation {
            break;
        }
        if e.over_deadline() || e.rep.paths >= cfg.max_paths {
            // anything left?
            if !work.is_empty() || e.trace.iter().any(Entry::pending) {
                complete = false;
            }
            break;
        }
        // backtrack
        // entries beyond `pos` may exist only if the path aborted early
        let pos = e.pos;
        e.trace.truncate(pos);
        let mut found = false;
        if cfg.order_seed != 0 {
            let t = std::mem::take(&mut e.trace);
            if t.iter().any(Entry::pending) {
                work.push(t);
            }
            if work.is_empty() {
                break;
            }
            // some other path, at one of its open alternatives
            let i = if work.len() > 4000 || rnd(3) == 0 { work.len() - 1 } else { rnd(work.len()) };
            let open: Vec<usize> = (0..work[i].len()).filter(|j| work[i][*j].pending()).collect();
            let j = if work.len() > 4000 { open[open.len() - 1] } else { open[rnd(open.len())] };
            let mut t: Vec<Entry> = work[i][..=j].iter().map(Entry::closed).collect();
            // the new path owns this alternative
            t[j] = work[i][j].clone();
            work[i][j] = work[i][j].closed();
            if !work[i].iter().any(Entry::pending) {
                work.swap_remove(i);
            }
            e.z3_pop_to(0);
            e.trace = t;
            let top = e.trace.pop().unwrap();
            let conds = e.trace_conds();
            for c in conds {
                e.z3_push_assert(c);
            }
            e.trace.push(top);
        }
        while let Some(top) = e.trace.pop() {
            let lvl = e.trace.len();
            match top {
                Entry::Branch {
                    cond,
                    taken,
                    alt: true,
                    alt_model,
                } => {
                    e.z3_pop_to(lvl);
                    let asserted = if !taken { cond } else { e.bnot(cond) };
                    e.z3_push_assert(asserted);
                    e.model = alt_model.unwrap();
                    e.trace.push(Entry::Branch {
                        cond,
                        taken: !taken,
                        alt: false,
                        alt_model: None,
                    });
                    found = true;
                }
                Entry::Concretize {
                    term,
                    v,
                    taken: true,
                    alt: true,
                    alt_model,
                } => {
                    e.z3_pop_to(lvl);
                    let w = e.w(term);
                    let cv = e.cst(w, v);
                    let c = e.eq(term, cv);
                    let nc = e.bnot(c);
                    e.z3_push_assert(nc);
                    e.model = alt_model.unwrap();
                    e.trace.push(Entry::Concretize {
                        term,
                        v,
                        taken: false,
                        alt: false,
                        alt_model: None,
                    });
                    found = true;
                }
                Entry::Choice { n, cur, last } if cur + 1 < last => {
                    e.z3_pop_to(lvl);
                    e.z3_push_assert(1);
                    e.trace.push(Entry::Choice {
                        n,
                        cur: cur + 1,
                        last,
                    });
                    // the current model may violate nothing new, but it must
                    // satisfy the remaining prefix: recompute if needed
                    let m = e.model.clone();
                    let conds: Vec<Id> = e.prefix_conds();
                    if !conds.iter().all(|c| e.eval(&m, *c) == 1) {
                        if let Ok(Some(m)) = e.query_from(1, false) {
                            e.model = m;
                        }
                    }
                    found = true;
                }
                _ => {}
            }
            if found {
                break;
            }
        }
        if !found {
            break;
        }
    }
    let mut e = g();
    if e.rep.unknown > 0 {
        complete = false;
    }
    e.rep.complete = complete;
    e.rep.wall_s = start.elapsed().as_secs_f64();
    e.rep.terms = e.nodes.len();
    e.mode = Mode::Off;
    e.rep.clone()
}

impl Entry {
    fn pending(&self) -> bool {
        match self {
            Entry::Branch { alt, .. } | Entry::Concretize { alt, .. } => *alt,
            Entry::Choice { last, cur, .. } => cur + 1 < *last,
            _ => false,
        }
    }
    /// without its unexplored alternatives
    fn closed(&self) -> Entry {
        match self {
            Entry::Branch { cond, taken, .. } => Entry::Branch { cond: *cond, taken: *taken, alt: false, alt_model: None },
            Entry::Concretize { term, v, taken, .. } => {
                Entry::Concretize { term: *term, v: *v, taken: *taken, alt: false, alt_model: None }
            }
            Entry::Choice { n, cur, .. } => Entry::Choice { n: *n, cur: *cur, last: *cur + 1 },
            Entry::Assume { cond } => Entry::Assume { cond: *cond },
        }
    }
}

impl Engine {
    /// one condition per trace entry (true for choices)
    fn trace_conds(&mut self) -> Vec<Id> {
        let tr = std::mem::take(&mut self.trace);
        let r = tr
            .iter()
            .map(|t| match t {
                Entry::Branch { cond, taken, .. } => {
                    if *taken {
                        *cond
                    } else {
                        self.bnot(*cond)
                    }
                }
                Entry::Assume { cond } => *cond,
                Entry::Concretize { term, v, taken, .. } => {
                    let w = self.w(*term);
                    let cv = self.cst(w, *v);
                    let c = self.eq(*term, cv);
                    if *taken {
                        c
                    } else {
                        self.bnot(c)
                    }
                }
                Entry::Choice { .. } => 1,
            })
            .collect();
        self.trace = tr;
        r
    }
    fn prefix_conds(&mut self) -> Vec<Id> {
        let tr = self.trace.clone();
        tr.iter()
            .filter_map(|t| match t {
                Entry::Branch { cond, taken, .. } => Some(if *taken {
                    *cond
                } else {
                    self.bnot(*cond)
                }),
                Entry::Assume { cond } => Some(*cond),
                Entry::Concretize { term, v, taken, .. } => {
                    let w = self.w(*term);
                    let cv = self.cst(w, *v);
                    let c = self.eq(*term, cv);
                    Some(if *taken { c } else { self.bnot(c) })
                }
                Entry::Choice { .. } => None,
            })
            .collect()
    }
}

pub struct ReplayResult {
    /// Some(message) if the property failed concretely
    pub failed: Option<String>,
    pub is_panic: bool,
    pub aborted: bool,
    pub notes: Vec<String>,
}

/// Run the harness on concrete inputs: no solver, no symbolic values.
pub fn replay(inputs: &[Input], choices: &[usize], f: &(dyn Fn() + Sync)) -> ReplayResult {
    {
        let mut e = g();
        e.mode = Mode::Replay;
        e.replay_inputs = inputs.to_vec();
        e.replay_choices = choices.to_vec();
        e.rpos_i = 0;
        e.rpos_c = 0;
        e.inputs.clear();
        e.name_count.clear();
        e.notes.clear();
    }
    let end = run_in_thread(f);
    let mut e = g();
    e.mode = Mode::Off;
    let notes = std::mem::take(&mut e.notes);
    let (failed, is_panic, aborted) = match end {
        End::Normal => (None, false, false),
        End::Abort => (None, false, true),
        End::Limit(m) => (None, false, m.len() > 0),
        End::Check(m) => (Some(m), false, false),
        End::Panic(m) => (Some(format!("panic: {m}")), true, false),
    };
    ReplayResult {
        failed,
        is_panic,
        aborted,
        notes,
    }
}
