//! Run-time side of autoprecompiles: optimistic constraints (C18), candidate
//! tracking (C19), equivalence classes and empirical constraints (C20).
use crate::field::*;
use crate::jobs::Job;
use powdr_autoprecompiles::blocks::{find_non_overlapping, BasicBlock, PcStep, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, EmpiricalConstraints};
use powdr_autoprecompiles::equivalence_classes::Partition;
use powdr_autoprecompiles::execution::{
    Apc, ApcCall, ApcCandidates, ExecutionState, LocalOptimisticLiteral, OptimisticConstraint,
    OptimisticConstraintEvaluator, OptimisticConstraints, OptimisticExpression, OptimisticLiteral,
};
use std::collections::BTreeMap;
use symcore::*;

#[derive(Clone, Debug)]
pub struct St<T> {
    pub pc: T,
    regs: [T; 2],
    clk: usize,
}
/// limbs of two bits
fn limb<T: Fld>(v: T, i: usize) -> T {
    T::from_term(v.bv().shr(2 * i as u16).and(Bv::c(3)).bounded(3))
}
impl<T: Fld> ExecutionState for St<T> {
    type RegisterAddress = u8;
    type Value = T;
    fn pc(&self) -> T {
        self.pc
    }
    fn value_limb(v: T, i: usize) -> T {
        limb(v, i)
    }
    fn reg(&self, a: &u8) -> T {
        self.regs[*a as usize]
    }
    fn global_clk(&self) -> usize {
        self.clk
    }
}
pub fn state<T: Fld>(i: usize, clk: usize) -> St<T> {
    St {
        pc: T::any(&format!("pc{i}")),
        regs: [T::any(&format!("r0_{i}")), T::any(&format!("r1_{i}"))],
        clk,
    }
}
type C<T> = OptimisticConstraint<u8, T>;
type E<T> = OptimisticExpression<u8, T>;
fn lit<T: Fld>(step: usize, kind: usize) -> E<T> {
    let val = match kind {
        0 => LocalOptimisticLiteral::Pc,
        1 => LocalOptimisticLiteral::RegisterLimb(0, 0),
        2 => LocalOptimisticLiteral::RegisterLimb(0, 1),
        _ => LocalOptimisticLiteral::RegisterLimb(1, 0),
    };
    OptimisticExpression::Literal(OptimisticLiteral { instr_idx: step, val })
}
/// reference value; `at(i)` is the state before instruction i
fn val<T: Fld>(e: &E<T>, at: &dyn Fn(usize) -> St<T>) -> T {
    match e {
        OptimisticExpression::Number(n) => *n,
        OptimisticExpression::Literal(l) => match l.val {
            LocalOptimisticLiteral::Pc => at(l.instr_idx).pc,
            LocalOptimisticLiteral::RegisterLimb(a, i) => limb(at(l.instr_idx).regs[a as usize], i),
        },
    }
}
fn ready<T>(c: &C<T>) -> usize {
    let s = |e: &E<T>| match e {
        OptimisticExpression::Number(_) => 0,
        OptimisticExpression::Literal(l) => l.instr_idx,
    };
    s(&c.left).max(s(&c.right))
}
/// all constraints that are decidable at exactly step k hold
fn ok_at<T: Fld>(cs: &[C<T>], k: usize, at: &dyn Fn(usize) -> St<T>) -> B {
    B::all(cs.iter().filter(|c| ready(c) == k).map(|c| val(&c.left, at).eqt(&val(&c.right, at))))
}
fn any_constraint<T: Fld>(n: &str, steps: usize) -> C<T> {
    let side = |s: &str| match choose(2) {
        0 => OptimisticExpression::Number(T::any(&format!("{n}{s}"))),
        _ => lit(choose(steps), choose(4)),
    };
    OptimisticConstraint { left: side("l"), right: side("r") }
}
fn evaluator<T: Fld>(nc: usize, steps: usize) {
    let cs: Vec<C<T>> = (0..nc).map(|i| any_constraint(&format!("c{i}"), steps)).collect();
    let states: Vec<St<T>> = (0..steps + 1).map(|i| state(i, i)).collect();
    let at = |i: usize| states[i].clone();
    let oc = OptimisticConstraints::from_constraints(cs.clone());
    let mut ev = OptimisticConstraintEvaluator::new();
    note(|| format!("constraints {cs:?} states {states:?}"));
    for k in 0..steps + 1 {
        let want = ok_at(&cs, k, &at);
        let got = ev.try_next_execution_step(&states[k], &oc).is_ok();
        if got {
            check(want, "a violated optimistic constraint is accepted");
            check_bool(ev.instruction_index() == k + 1, "step counter is wrong");
        } else {
            cover("rejected");
            check(want.not(), "a satisfied optimistic constraint is rejected");
            return;
        }
    }
    cover("accepted");
}
/// the register of one step compared with a constant and with the same register later
fn evaluator_shared<T: Fld>() {
    let (a, b) = (choose(3), choose(3));
    let ka = choose(4);
    let kb = choose(4);
    let k1 = T::any("k1");
    let cs: Vec<C<T>> = vec![
        OptimisticConstraint { left: lit(a, ka), right: lit(b, kb) },
        OptimisticConstraint { left: lit(b, kb), right: OptimisticExpression::Number(k1) },
        OptimisticConstraint { left: lit(a, 2), right: lit(2, 1) },
        OptimisticConstraint { left: lit(0, 3), right: lit(2, 3) },
    ];
    let states: Vec<St<T>> = (0..3).map(|i| state(i, i)).collect();
    let at = |i: usize| states[i].clone();
    let oc = OptimisticConstraints::from_constraints(cs.clone());
    let mut ev = OptimisticConstraintEvaluator::new();
    note(|| format!("constraints {cs:?} states {states:?}"));
    for k in 0..3 {
        let want = ok_at(&cs, k, &at);
        if ev.try_next_execution_step(&states[k], &oc).is_ok() {
            check(want, "a violated optimistic constraint is accepted");
        } else {
            check(want.not(), "a satisfied optimistic constraint is rejected");
            return;
        }
    }
}

// ------------------------------------------------------------- candidates
struct A<T: Fld> {
    len: usize,
    prio: usize,
    cs: Vec<C<T>>,
    oc: OptimisticConstraints<u8, T>,
}
impl<T: Fld> A<T> {
    fn new(len: usize, prio: usize, cs: Vec<C<T>>) -> Self {
        let oc = OptimisticConstraints::from_constraints(cs.clone());
        A { len, prio, cs, oc }
    }
}
impl<T: Fld> Apc<St<T>> for A<T> {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u8, T> {
        &self.oc
    }
    fn cycle_count(&self) -> usize {
        self.len
    }
    fn priority(&self) -> usize {
        self.prio
    }
}
#[derive(Clone, Debug)]
struct Cand {
    apc: usize,
    start: usize,
    done: Option<usize>,
}
struct World<T: Fld> {
    apcs: Vec<(usize, usize, Vec<C<T>>)>,
    real: ApcCandidates<St<T>, A<T>, usize>,
    model: Vec<Cand>,
    /// states by step, with their clocks
    states: Vec<St<T>>,
    log: Vec<String>,
}
impl<T: Fld> World<T> {
    fn new(apcs: Vec<A<T>>) -> Self {
        let info = apcs.iter().map(|a| (a.len, a.prio, a.cs.clone())).collect();
        World { apcs: info, real: ApcCandidates::new(apcs), model: vec![], states: vec![], log: vec![] }
    }
    fn now(&self) -> usize {
        self.states.len() - 1
    }
    fn show(&self) -> String {
        format!(
            "apcs (cycles, priority) {:?} constraints {:?} log {:?} states {:?}",
            self.apcs.iter().map(|a| (a.0, a.1)).collect::<Vec<_>>(),
            self.apcs.iter().map(|a| a.2.len()).collect::<Vec<_>>(),
            self.log,
            self.states
        )
    }
    fn insert(&mut self, apc: usize) {
        let now = self.now();
        let st = self.states[now].clone();
        let states = &self.states;
        let want = ok_at(&self.apcs[apc].2, 0, &|i| states[now + i].clone());
        let snap = st.clk + 100;
        let got = self.real.try_insert(&st, apc, || snap).is_ok();
        self.log.push(format!("insert {apc} at {now}: {got}"));
        note(|| self.show());
        if got {
            check(want, "a candidate starts although its constraints fail");
            self.model.push(Cand { apc, start: now, done: None });
        } else {
            check(want.not(), "a valid candidate is refused");
        }
    }
    /// one execution step
    fn step(&mut self, gap: usize) {
        let clk = self.states.last().map(|s| s.clk + gap).unwrap_or(gap);
        let st = state(self.states.len(), clk);
        self.states.push(st.clone());
        let snap = clk + 100;
        self.real.check_conditions(&st, || snap);
        let now = self.now();
        let states = self.states.clone();
        let apcs = &self.apcs;
        self.model.retain_mut(|c| {
            if c.done.is_some() {
                return true;
            }
            let (len, _, cs) = &apcs[c.apc];
            let k = now - c.start;
            if !branch(ok_at(cs, k, &|i| states[c.start + i].clone())) {
                return false;
            }
            if k == *len {
                c.done = Some(now);
            }
            true
        });
        self.log.push("step".into());
    }
    fn abort(&mut self) {
        let got = self.real.abort_in_progress();
        let want: Vec<usize> = self.model.iter().filter(|c| c.done.is_none()).map(|c| c.apc).collect();
        self.model.retain(|c| c.done.is_some());
        self.log.push("abort".into());
        note(|| format!("{} aborted {got:?}, expected {want:?}", self.show()));
        let s = |mut v: Vec<usize>| {
            v.sort();
            v
        };
        check_bool(s(got) == s(want), "aborting reports the wrong candidates");
    }
    fn extract(&mut self) {
        let got = self.real.extract_calls();
        let running = self.model.iter().any(|c| c.done.is_none());
        self.log.push(format!("extract {:?}", got.iter().map(|c| (c.apc_id, c.from, c.to)).collect::<Vec<_>>()));
        note(|| format!("{} model {:?}", self.show(), self.model));
        if running {
            check_bool(got.is_empty(), "calls are returned while candidates are in progress");
            return;
        }
        let model = std::mem::take(&mut self.model);
        let span = |c: &Cand| (self.states[c.start].clk, self.states[c.done.unwrap()].clk);
        // every returned call is a completed candidate, used once
        let mut left: Vec<usize> = (0..model.len()).collect();
        let mut taken = vec![];
        for ApcCall { apc_id, from, to } in &got {
            let p = left.iter().position(|i| {
                let c = &model[*i];
                let (s, e) = span(c);
                c.apc == *apc_id && s + 100 == *from && e + 100 == *to
            });
            check_bool(p.is_some(), "a returned call is not a completed candidate");
            taken.push(left.remove(p.unwrap()));
        }
        let over = |a: usize, b: usize| {
            let ((s, e), (t, f)) = (span(&model[a]), span(&model[b]));
            s < f && t < e
        };
        for (i, a) in taken.iter().enumerate() {
            for b in &taken[..i] {
                check_bool(!over(*a, *b), "two returned calls overlap");
            }
        }
        let rank = |i: usize| {
            let (s, e) = span(&model[i]);
            (self.apcs[model[i].apc].1, e - s, std::cmp::Reverse(i))
        };
        for i in &left {
            // identical candidates are interchangeable
            let same = |j: usize| model[*i].apc == model[j].apc && span(&model[*i]) == span(&model[j]);
            let better = (0..model.len()).any(|j| j != *i && over(*i, j) && (rank(j) > rank(*i) || same(j)));
            check_bool(better, "a completed candidate is dropped although no better one overlaps it");
        }
        if !taken.is_empty() {
            cover("calls returned");
        }
        if taken.len() > 1 {
            cover("several calls");
        }
        if !left.is_empty() {
            cover("conflict resolved");
        }
    }
}
/// Random schedules: lengths, priorities and insertion times are chosen.
fn schedule<T: Fld>(n: usize, steps: usize) {
    let apcs: Vec<A<T>> = (0..n)
        .map(|i| {
            let len = 1 + choose(3);
            let prio = choose(2);
            let cs = if i == 0 {
                // register unchanged over the block
                vec![OptimisticConstraint { left: lit(0, 1), right: lit(len, 1) }]
            } else {
                vec![]
            };
            A::new(len, prio, cs)
        })
        .collect();
    let mut w = World::new(apcs);
    w.step(1);
    for t in 0..steps {
        for a in 0..n {
            if t < 3 && choose_bool() {
                w.insert(a);
            }
        }
        w.step(1 + t % 2);
        w.extract();
    }
    w.abort();
    w.extract();
}
/// Constraints on first, middle and last state of two candidates.
fn constrained<T: Fld>() {
    let kinds = |len: usize, n: &str| -> Vec<C<T>> {
        match choose(5) {
            0 => vec![],
            1 => vec![OptimisticConstraint { left: lit(0, 0), right: OptimisticExpression::Number(T::any(n)) }],
            2 => vec![OptimisticConstraint { left: lit(len, 0), right: OptimisticExpression::Number(T::any(n)) }],
            3 => vec![OptimisticConstraint { left: lit(len / 2, 2), right: lit(len, 3) }],
            _ => vec![
                OptimisticConstraint { left: lit(0, 3), right: lit(1, 3) },
                OptimisticConstraint { left: lit(1, 0), right: OptimisticExpression::Number(T::any(n)) },
            ],
        }
    };
    let (l0, l1) = (1 + choose(3), 1 + choose(2));
    let (p0, p1) = (choose(2), 1);
    let apcs = vec![A::new(l0, p0, kinds(l0, "k0")), A::new(l1, p1, kinds(l1, "k1"))];
    let mut w = World::new(apcs);
    w.step(1);
    let start1 = choose(3);
    for t in 0..4 {
        if t == 0 {
            w.insert(0);
        }
        if t == start1 {
            w.insert(1);
        }
        w.step(2);
        w.extract();
    }
    w.abort();
    w.extract();
}

// ------------------------------------------------------------- partitions
/// class index per element of a partition with elements `es` (class id or None)
fn build<T: Fld>(es: &[T], cls: &[usize], n: usize) -> Partition<T> {
    let mut classes: Vec<Vec<T>> = vec![vec![]; n];
    for (e, c) in es.iter().zip(cls) {
        classes[*c].push(*e);
    }
    classes.into_iter().collect()
}
/// x and y are in one class (of more than one element)
fn related<T: Fld>(p: &Partition<T>, x: &T, y: &T) -> B {
    B::any(p.to_classes().iter().map(|c| {
        B::any(c.iter().map(|e| e.eqt(x))).and(B::any(c.iter().map(|e| e.eqt(y))))
    }))
}
fn rel<T: Fld>(es: &[T], cls: &[usize], x: &T, y: &T) -> B {
    let mut alts = vec![];
    for i in 0..es.len() {
        for j in 0..es.len() {
            if i != j && cls[i] == cls[j] {
                alts.push(es[i].eqt(x).and(es[j].eqt(y)));
            }
        }
    }
    B::any(alts)
}
fn distinct<T: Fld>(es: &[T]) {
    for i in 0..es.len() {
        for j in 0..i {
            assume(es[i].eqt(&es[j]).not());
        }
    }
}
fn elems<T: Fld>(n: &str, k: usize) -> Vec<T> {
    (0..k).map(|i| T::any(&format!("{n}{i}"))).collect()
}
/// class assignments in restricted-growth form
fn assign(k: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut m = 0;
    for _ in 0..k {
        let c = choose(m + 1);
        m = m.max(c + 1);
        v.push(c);
    }
    v
}
fn well_formed<T: Fld>(p: &Partition<T>) {
    let cs = p.to_classes();
    for c in &cs {
        check_bool(c.len() > 1, "a class with fewer than two elements");
    }
    let all: Vec<T> = cs.concat();
    for i in 0..all.len() {
        for j in 0..i {
            check(all[i].eqt(&all[j]).not(), "an element is in two classes");
        }
    }
}
fn intersect<T: Fld>(k: usize, m: usize) {
    let (a, b) = (elems::<T>("a", k), elems::<T>("b", m));
    let (ca, cb) = (assign(k), assign(m));
    distinct(&a);
    distinct(&b);
    let how = choose(2);
    let (pa, pb) = (build(&a, &ca, k), build(&b, &cb, m));
    let p = match how {
        0 => pa.intersected_with(pb),
        _ => Partition::intersect_many([pa, pb]),
    };
    let (x, y) = (T::any("x"), T::any("y"));
    assume(x.eqt(&y).not());
    note(|| format!("{a:?} by {ca:?} and {b:?} by {cb:?}: {:?}; x {x} y {y}", p.to_classes()));
    let want = rel(&a, &ca, &x, &y).and(rel(&b, &cb, &x, &y));
    check(related(&p, &x, &y).iff(want), "intersection of partitions is wrong");
    well_formed(&p);
}
fn intersect3<T: Fld>() {
    let (a, b, c) = (elems::<T>("a", 3), elems::<T>("b", 3), elems::<T>("c", 3));
    let (ca, cb, cc) = (assign(3), assign(3), assign(3));
    distinct(&a);
    distinct(&b);
    distinct(&c);
    let p = Partition::intersect_many([build(&a, &ca, 3), build(&b, &cb, 3), build(&c, &cc, 3)]);
    let (x, y) = (T::any("x"), T::any("y"));
    assume(x.eqt(&y).not());
    note(|| format!("{a:?} by {ca:?}, {b:?} by {cb:?}, {c:?} by {cc:?}: {:?}; x {x} y {y}", p.to_classes()));
    let want = B::all([rel(&a, &ca, &x, &y), rel(&b, &cb, &x, &y), rel(&c, &cc, &x, &y)]);
    check(related(&p, &x, &y).iff(want), "intersection of partitions is wrong");
    well_formed(&p);
}
fn combine<T: Fld>() {
    let (a, b) = (elems::<T>("a", 4), elems::<T>("b", 3));
    let (ca, cb) = (assign(4), assign(3));
    distinct(&[a.clone(), b.clone()].concat());
    let (pa, pb) = (build(&a, &ca, 4), build(&b, &cb, 3));
    let p = pa.combine(pb);
    let (x, y) = (T::any("x"), T::any("y"));
    assume(x.eqt(&y).not());
    note(|| format!("{a:?} by {ca:?} and {b:?} by {cb:?}: {:?}; x {x} y {y}", p.to_classes()));
    let want = rel(&a, &ca, &x, &y).or(rel(&b, &cb, &x, &y));
    check(related(&p, &x, &y).iff(want), "combination of partitions is wrong");
    well_formed(&p);
    // shift all elements
    let k = T::any("k");
    let q = p.map_elements(|e| e + k);
    check(related(&q, &(x + k), &(y + k)).iff(want), "mapping elements changes the classes");
    well_formed(&q);
}
fn non_overlapping<T: Fld>(h: usize) {
    let n = 1 + choose(3);
    let hay = elems::<T>("h", h);
    let needle = elems::<T>("n", n);
    let got = find_non_overlapping(&hay, &needle);
    note(|| format!("{needle:?} in {hay:?}: {got:?}"));
    let at = |p: usize| B::all((0..n).map(|i| hay[p + i].eqt(&needle[i])));
    let mut end = 0;
    for p in &got {
        check_bool(*p >= end && p + n <= h, "occurrences overlap or are out of bounds");
        check(at(*p), "not an occurrence");
        end = p + n;
    }
    // no larger set of disjoint occurrences exists
    fn sets(h: usize, n: usize, from: usize, k: usize) -> Vec<Vec<usize>> {
        if k == 0 {
            return vec![vec![]];
        }
        (from..=h.saturating_sub(n))
            .filter(|p| p + n <= h)
            .flat_map(|p| {
                sets(h, n, p + n, k - 1).into_iter().map(move |mut s| {
                    s.insert(0, p);
                    s
                })
            })
            .collect()
    }
    let more = sets(h, n, 0, got.len() + 1);
    check(B::any(more.iter().map(|s| B::all(s.iter().map(|p| at(*p))))).not(), "an occurrence is missed");
}
// -------------------------------------------------- empirical constraints
#[derive(Clone)]
struct Nop;
impl PcStep for Nop {
    fn pc_step() -> u32 {
        4
    }
}
/// The predicate's answers are symbolic; it may be applied twice.
fn filtered() {
    let layout: &[(u64, usize)] = match choose(3) {
        0 => &[(0, 2)],
        1 => &[(0, 1), (0, 1), (8, 1)],
        _ => &[(8, 1), (0, 1), (8, 1)],
    };
    let block: SuperBlock<Nop> = layout
        .iter()
        .map(|(pc, n)| BasicBlock { start_pc: *pc, instructions: vec![Nop; *n] })
        .collect::<Vec<_>>()
        .into();
    let pcs: Vec<u64> = block.pcs().collect();
    let mut e = EmpiricalConstraints::default();
    for pc in [0u32, 4, 8, 12] {
        e.column_ranges_by_pc.insert(pc, (0..3).map(|c| (pc * 10 + c, pc * 10 + c + 5)).collect());
    }
    let cells = [(0usize, 0usize), (0, 2), (pcs.len() - layout.last().unwrap().1, 1)];
    let last = layout.last().unwrap().0;
    // classes are stored per basic block
    let cls = vec![BlockCell::new(0, 0), BlockCell::new(0, 1), BlockCell::new(0, 2)];
    e.equivalence_classes_by_block.insert(last, [cls].into_iter().collect());
    let _ = cells;
    let rounds = 1 + choose(2);
    let ans: std::cell::RefCell<BTreeMap<(usize, BlockCell), bool>> = Default::default();
    let ask = |round: usize, c: &BlockCell| -> bool {
        // the second predicate depends on the column only
        let c = if round == 0 { *c } else { BlockCell::new(0, (0..3).find(|i| (0..4).any(|r| *c == BlockCell::new(r, *i))).unwrap()) };
        if let Some(b) = ans.borrow().get(&(round, c)) {
            return *b;
        }
        let b = branch(fresh(&format!("p{round}_{c:?}"), 2).equals(Bv::c(1)));
        ans.borrow_mut().insert((round, c), b);
        b
    };
    let mut f = e.for_block(&block);
    let classes0 = f.equivalence_classes.to_classes();
    for r in 0..rounds {
        f = f.filtered(|c| ask(r, c));
    }
    note(|| format!("pcs {pcs:?} predicate {:?} -> {:?}", ans.borrow(), f.column_ranges_by_pc));
    for (i, pc) in pcs.iter().enumerate() {
        let _ = i;
        for col in 0..3 {
            let keep = (0..rounds).all(|r| {
                pcs.iter().enumerate().filter(|(_, p)| *p == pc).all(|(i, _)| ask(r, &BlockCell::new(i, col)))
            });
            let got = f.column_ranges_by_pc.get(&(*pc as u32)).and_then(|m| m.get(&col)).copied();
            let want = keep.then_some((*pc as u32 * 10 + col as u32, *pc as u32 * 10 + col as u32 + 5));
            check_bool(got == want, "filtering keeps or drops the wrong range");
        }
    }
    let want: Vec<Vec<BlockCell>> = classes0
        .iter()
        .map(|c| {
            let mut c: Vec<_> = c.iter().copied().filter(|x| (0..rounds).all(|r| ask(r, x))).collect();
            c.sort();
            c
        })
        .filter(|c| c.len() > 1)
        .collect();
    let mut got = f.equivalence_classes.to_classes();
    got.iter_mut().for_each(|c| c.sort());
    let s = |mut v: Vec<Vec<BlockCell>>| {
        v.sort();
        v
    };
    check_bool(s(got) == s(want), "filtering changes the equivalence classes");
}

const F18: &[&str] = &["OptimisticConstraints::from_constraints", "OptimisticConstraintEvaluator::try_next_execution_step", "StepOptimisticConstraintEvaluator"];
const F19: &[&str] = &["ApcCandidates::{try_insert,check_conditions,abort_in_progress,extract_calls}", "CandidateRank::cmp", "OptimisticConstraintEvaluator::try_next_execution_step"];
const F20: &[&str] = &["Partition::{from_iter,to_classes,intersect_many,intersected_with,combine,map_elements}", "find_non_overlapping", "EmpiricalConstraints::for_block", "BlockEmpiricalConstraints::filtered"];
pub fn jobs(v: &mut Vec<Job>) {
    for (nc, steps) in [(1usize, 3usize), (2, 2)] {
        v.push(Job::new("C18", format!("C18.eval.{nc}x{steps}"), move || evaluator::<S31n>(nc, steps)).functions(F18)
            .bounds(format!("{nc} constraints, sides: number or literal of steps 0..{steps} (pc, three register limbs), all register/pc values")));
    }
    v.push(Job::new("C18", "C18.eval.2x3", || evaluator::<S31n>(2, 3)).functions(F18).cost(5).split(&[2]).bounds("2 constraints over steps 0..3"));
    v.push(Job::new("C18", "C18.shared", evaluator_shared::<S31n>).functions(F18).cost(3).bounds("four constraints sharing literals, three states"));
    v.push(Job::new("C18", "C18.shared.bb", evaluator_shared::<SBB>).functions(F18).cost(3).thorough().bounds("as above, BabyBear-sized values"));
    v.push(Job::new("C19", "C19.schedule.2", || schedule::<S7>(2, 5)).functions(F19).cost(4).split(&[3]).bounds("2 APCs (1-3 cycles, 2 priorities), insertions at any of 3 steps, 5 steps, all register values"));
    v.push(Job::new("C19", "C19.schedule.3", || schedule::<S7>(3, 4)).functions(F19).cost(8).split(&[3, 2, 3]).thorough().bounds("3 APCs"));
    v.push(Job::new("C19", "C19.constrained", constrained::<S31n>).functions(F19).cost(4).split(&[3]).bounds("2 APCs with constraints on first, middle and last state, all pc and register values"));
    v.push(Job::new("C20", "C20.intersect.3x3", || intersect::<S13>(3, 3)).functions(F20).bounds("two partitions of 3 elements, all element values"));
    v.push(Job::new("C20", "C20.intersect.4x3", || intersect::<S13>(4, 3)).functions(F20).cost(3).bounds("partitions of 4 and 3 elements"));
    v.push(Job::new("C20", "C20.intersect.4x4", || intersect::<S13>(4, 4)).functions(F20).cost(8).split(&[1, 2]).bounds("partitions of 4 and 4 elements"));
    v.push(Job::new("C20", "C20.intersect3", intersect3::<S13>).functions(F20).cost(4).bounds("three partitions of 3 elements"));
    v.push(Job::new("C20", "C20.combine", combine::<S29>).functions(F20).bounds("partitions of 4 and 3 elements with disjoint elements"));
    v.push(Job::new("C20", "C20.filtered", filtered).functions(F20).cost(2).split(&[3]).bounds("superblocks of up to 4 instructions with repeated pcs, 3 columns each, any predicate, applied once or twice"));
    for h in [4usize, 6] {
        v.push(Job::new("C20", format!("C20.nonoverlap.{h}"), move || non_overlapping::<S7>(h)).functions(F20).cost(2).bounds(format!("haystack of {h}, needle of 1 to 3 elements, all values")));
    }
}
