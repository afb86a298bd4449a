//! Memory optimizer (C10), range checks (C11), low-degree lookups (C12) and the
//! whole optimizer pipeline (C13).
use crate::c_opt::{show_sys, sys_degree, sys_refs, sys_sat};
use crate::field::*;
use crate::jobs::Job;
use crate::sysu::*;
use crate::tmpl::*;
use crate::toybus::*;
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::constraint_optimizer::{
    remove_disconnected_columns, simplify_constraints_using_exhaustive_search,
};
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::low_degree_bus_interaction_optimizer::LowDegreeBusInteractionOptimizer;
use powdr_autoprecompiles::memory_optimizer::optimize_memory;
use powdr_autoprecompiles::optimizer::optimize;
use powdr_autoprecompiles::range_constraint_optimizer::optimize_range_constraints;
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicMachine};
use powdr_autoprecompiles::ColumnAllocator;
use powdr_constraint_solver::constraint_system::{
    AlgebraicConstraint, BusInteraction, ComputationMethod, ConstraintSystem, DerivedVariable,
};
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::inliner::DegreeBound;
use powdr_constraint_solver::solver::{new_solver, Solver};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use symcore::*;

type Env<T> = BTreeMap<Vr, T>;

// ------------------------------------------------------------ equivalence
#[derive(Clone, Copy, Default)]
pub struct Flow {
    /// gets return what the latest set to the same address stored
    pub honest: bool,
    /// soundness only for satisfiable originals
    pub satisfiable: bool,
}
fn stateful(id: i64) -> bool {
    id == MEM || id == EXEC
}
fn tr_refs<T: Fld>(t: &Tr<T>, out: &mut BTreeSet<u16>) {
    match t {
        Tr::V(i) => {
            out.insert(*i);
        }
        Tr::K(_) => {}
        Tr::Add(a, b) | Tr::Sub(a, b) | Tr::Mul(a, b) => {
            tr_refs(a, out);
            tr_refs(b, out);
        }
        Tr::Neg(a) => tr_refs(a, out),
    }
}
/// t = coeff * x + rest with a constant coefficient
fn affine_in<T: Fld>(t: &Tr<T>, x: u16) -> Option<(T, Tr<T>)> {
    let mut r = BTreeSet::new();
    tr_refs(t, &mut r);
    if !r.contains(&x) {
        return Some((T::cst(0), t.clone()));
    }
    match t {
        Tr::V(_) => Some((T::cst(1), k(0))),
        Tr::K(_) => unreachable!(),
        Tr::Add(a, b) => {
            let ((p, a), (q, b)) = (affine_in(a, x)?, affine_in(b, x)?);
            Some((p + q, a.add(b)))
        }
        Tr::Sub(a, b) => {
            let ((p, a), (q, b)) = (affine_in(a, x)?, affine_in(b, x)?);
            Some((p - q, a.sub(b)))
        }
        Tr::Neg(a) => affine_in(a, x).map(|(p, a)| (-p, a.neg())),
        Tr::Mul(a, b) => match (&**a, &**b) {
            (Tr::K(n), o) | (o, Tr::K(n)) => affine_in(o, x).map(|(p, a)| (p * *n, a.mul(Tr::K(*n)))),
            _ => None,
        },
    }
}
/// Sum of multiplicities is the same for every message on the stateful buses.
fn balanced<T: Fld>(a: &[Bi<T>], b: &[Bi<T>]) -> B {
    let all: Vec<(Bi<T>, bool)> =
        a.iter().map(|m| (m.clone(), false)).chain(b.iter().map(|m| (m.clone(), true))).collect();
    let eq = |x: &Bi<T>, y: &Bi<T>| {
        if x.args.len() != y.args.len() {
            return B::FALSE;
        }
        x.id.eqt(&y.id).and(B::all(x.args.iter().zip(&y.args).map(|(p, q)| p.eqt(q))))
    };
    B::all((0..all.len()).map(|i| {
        let mut sum = T::cst(0);
        for (m, neg) in &all {
            let w = if *neg { -m.mult } else { m.mult };
            let t = Bv::ite(eq(&all[i].0, m), w.bv(), Bv::c(0));
            sum = sum + T::from_term(t.bounded(T::PRIME as u128 - 1));
        }
        sum.zt()
    }))
}
fn honest<T: Fld>(s: &Spec<T>, env: &[T]) -> B {
    let mem: Vec<Bi<T>> = s.bus.iter().filter(|b| b.0 == MEM).map(|b| bval(b, env)).collect();
    let same = |a: &Bi<T>, b: &Bi<T>| a.args[0].eqt(&b.args[0]).and(a.args[1].eqt(&b.args[1]));
    let mut parts = vec![];
    for i in 0..mem.len() {
        let get = mem[i].mult.eqt(&T::cst(-1));
        for j in 0..i {
            let set = mem[j].mult.eqt(&T::cst(1));
            let latest = B::all((j + 1..i).map(|m| mem[m].mult.zt().or(same(&mem[m], &mem[i]).not())));
            let agree = B::all((2..mem[i].args.len()).map(|a| mem[i].args[a].eqt(&mem[j].args[a])));
            parts.push(B::all([get, set, same(&mem[i], &mem[j]), latest]).implies(agree));
            // a consumed value cannot be consumed again
            let got = mem[j].mult.eqt(&T::cst(-1));
            parts.push(B::all([get, got, same(&mem[i], &mem[j]), latest]).not());
        }
    }
    let exec: Vec<Bi<T>> = s.bus.iter().filter(|b| b.0 == EXEC).map(|b| bval(b, env)).collect();
    for c in exec.chunks(2).collect::<Vec<_>>().windows(2) {
        let (send, recv) = (&c[0][1], &c[1][0]);
        parts.push(B::all(send.args.iter().zip(&recv.args).map(|(a, b)| a.eqt(b))));
    }
    B::all(parts)
}
fn spec_flow<T: Fld>(s: &Spec<T>, env: &[T]) -> Vec<Bi<T>> {
    s.bus.iter().filter(|b| stateful(b.0)).map(|b| bval(b, env)).collect()
}
fn sys_flow<T: Fld>(s: &Sys<T>, env: &dyn Fn(&Vr) -> T) -> Vec<Bi<T>> {
    let (m, e) = (T::cst(MEM), T::cst(EXEC));
    s.bus_interactions.iter().map(|b| eval_bus(b, env)).filter(|b| b.id == m || b.id == e).collect()
}
/// The result is equivalent to the original up to cancelling stateful messages.
pub fn check_flow<T: Fld>(s: &Spec<T>, new: &Sys<T>, o: Flow) {
    check_flow_hints(s, new, o, &[])
}
/// `hints`: equations that may be used to find values of eliminated variables (the
/// candidate is checked against the original system like any other).
pub fn check_flow_hints<T: Fld>(s: &Spec<T>, new: &Sys<T>, o: Flow, hints: &[Tr<T>]) {
    let env = fresh_env::<T>(s.nv);
    let mut full: Env<T> = env.iter().enumerate().map(|(i, x)| (Vr(i as u16), *x)).collect();
    for d in &new.derived_variables {
        let x = eval_method(&d.computation_method, &|v: &Vr| {
            full.get(v).copied().unwrap_or_else(|| limit(format!("undefined variable {v}")))
        });
        full.insert(d.variable, x);
    }
    let used = sys_refs(new);
    note(|| format!("before: {}  after: {}  env {full:?}", s.show(), show_sys(new)));
    for v in &used {
        check_bool(full.contains_key(v), "the result contains a variable without definition");
    }
    let look = |v: &Vr| full[v];
    let mut pre = s.sat(&env);
    if o.honest {
        pre = pre.and(honest(s, &env));
    }
    check(pre.implies(sys_sat(new, &look)), "a solution is lost");
    check(pre.implies(balanced(&spec_flow(s, &env), &sys_flow(new, &look))), "the stateful messages change");
    // soundness
    let mut vals: Env<T> = env.iter().enumerate().map(|(i, x)| (Vr(i as u16), *x)).collect();
    for d in &new.derived_variables {
        vals.insert(d.variable, T::any(&format!("new_{}", d.variable)));
    }
    let gone: BTreeSet<u16> = (0..s.nv as u16).filter(|i| !used.contains(&Vr(*i))).collect();
    // exact elimination: a constraint that is solvable for an eliminated variable
    let mut solved: BTreeMap<u16, (T, Tr<T>)> = BTreeMap::new();
    fn deps<T: Fld>(t: &Tr<T>, solved: &BTreeMap<u16, (T, Tr<T>)>, out: &mut BTreeSet<u16>) {
        let mut r = BTreeSet::new();
        tr_refs(t, &mut r);
        for x in r {
            if out.insert(x) {
                if let Some((_, e)) = solved.get(&x) {
                    deps(e, solved, out);
                }
            }
        }
    }
    for t in s.alg.iter().chain(hints) {
        for x in &gone {
            if solved.contains_key(x) {
                continue;
            }
            let Some((co, rest)) = affine_in(t, *x) else { continue };
            if co.bv().as_const().is_none_or(|v| v == 0) {
                continue;
            }
            let mut d = BTreeSet::new();
            deps(&rest, &solved, &mut d);
            if !d.contains(x) {
                // x = -rest / co
                solved.insert(*x, (-(T::cst(1) / co), rest));
                break;
            }
        }
    }
    let mut doms: Vec<(u16, Vec<i64>)> = vec![];
    for x in gone.iter().filter(|x| !solved.contains_key(x)) {
        let mut dom: Vec<i64> = (0..T::PRIME as i64).collect();
        dom.retain(|a| {
            let mut e = vals.clone();
            e.insert(Vr(*x), T::cst(*a));
            let e: Vec<T> = (0..s.nv as u16).map(|i| e[&Vr(i)]).collect();
            let only = |ts: &[&Tr<T>]| {
                let mut r = BTreeSet::new();
                ts.iter().for_each(|t| tr_refs(t, &mut r));
                r.len() == 1 && r.contains(x)
            };
            s.alg.iter().all(|t| !only(&[t]) || t.val(&e).zt().as_const() != Some(false))
                && s.bus.iter().all(|b| {
                    let ts: Vec<&Tr<T>> = b.2.iter().chain([&b.1]).collect();
                    !only(&ts) || bus_ok(&bval(b, &e)).as_const() != Some(false)
                })
        });
        doms.push((*x, dom));
    }
    let combos: usize = doms.iter().map(|d| d.1.len()).product();
    if combos > 2500 {
        cover("soundness not checked: too many eliminated variables");
        return;
    }
    fn value<T: Fld>(i: u16, vals: &Env<T>, solved: &BTreeMap<u16, (T, Tr<T>)>, nv: usize) -> T {
        match solved.get(&i) {
            None => vals[&Vr(i)],
            Some((f, e)) => {
                let mut r = BTreeSet::new();
                tr_refs(e, &mut r);
                let env: Vec<T> = (0..nv as u16)
                    .map(|j| if r.contains(&j) { value(j, vals, solved, nv) } else { T::cst(0) })
                    .collect();
                *f * e.val(&env)
            }
        }
    }
    let mut pre = sys_sat(new, &|v: &Vr| vals[v]);
    let nmsgs = sys_flow(new, &|v: &Vr| vals[v]);
    if o.satisfiable {
        let w: Vec<T> = (0..s.nv).map(|i| T::any(&format!("wit_{}", Vr(i as u16)))).collect();
        let mut h = s.sat(&w);
        if o.honest {
            h = h.and(honest(s, &w));
        }
        pre = pre.and(h);
    }
    let mut alts = vec![];
    for c in 0..combos {
        let mut c = c;
        let mut w = vals.clone();
        for (v, dom) in &doms {
            w.insert(Vr(*v), T::cst(dom[c % dom.len()]));
            c /= dom.len();
        }
        let oenv: Vec<T> = (0..s.nv as u16).map(|i| value(i, &w, &solved, s.nv)).collect();
        alts.push(s.sat(&oenv).and(balanced(&spec_flow(s, &oenv), &nmsgs)));
    }
    if !solved.is_empty() {
        cover("eliminated by solving");
    }
    if combos > 1 {
        cover("existential");
    }
    note(|| format!("before: {}  after: {}  values {vals:?}", s.show(), show_sys(new)));
    check(pre.implies(B::any(alts)), "a solution is invented");
}
/// The code gave up: the system must have no solution.
pub fn check_unsat<T: Fld>(s: &Spec<T>, o: Flow, msg: &str) {
    let env = fresh_env::<T>(s.nv);
    note(|| format!("{}  env {env:?}", s.show()));
    let mut pre = s.sat(&env);
    if o.honest {
        pre = pre.and(honest(s, &env));
    }
    check(pre.not(), msg);
}
type Bus<T> = (i64, Tr<T>, Vec<Tr<T>>);
fn spec<T: Fld>(nv: usize) -> Spec<T> {
    Spec { nv, alg: vec![], bus: vec![], ranges: vec![] }
}
fn mem<T: Fld>(m: Tr<T>, a: Vec<Tr<T>>) -> Bus<T> {
    (MEM, m, a)
}
/// get + set at (space, ptr): previous data/time d, t; new data e at time u
fn access<T: Fld>(s: &mut Spec<T>, sp: Tr<T>, p: Tr<T>, d: Tr<T>, t: Tr<T>, e: Tr<T>, u: Tr<T>) {
    s.bus.push(mem(k(-1), vec![sp.clone(), p.clone(), d, t]));
    s.bus.push(mem(k(1), vec![sp, p, e, u]));
}
fn solver_for<T: Fld>(s: &Spec<T>) -> Option<impl Solver<T, Vr>> {
    let mut solver = new_solver(s.sys(), ToyBus::<T>::new());
    let r = attempt(|| solver.solve().is_err());
    match r {
        Ok(false) => Some(solver),
        _ => {
            cover("contradiction");
            None
        }
    }
}

// ---------------------------------------------------------------- memory
pub const NM: usize = 13;
fn mtmpl<T: Fld>(n: usize) -> Spec<T> {
    // variables: 0..4 addresses, then d/t per access
    let d = |i: u16| v::<T>(4 + 2 * i);
    let t = |i: u16| v::<T>(5 + 2 * i);
    let time = |i: i64| v::<T>(3).add(k(i));
    let mut s = spec::<T>(10);
    match n {
        // same base, symbolic offset
        0 => {
            access(&mut s, k(1), v(0), d(0), t(0), d(0), time(0));
            access(&mut s, k(1), v(0).add(c("k0")), d(1), t(1), v(1), time(1));
            access(&mut s, k(1), v(0), d(2), t(2), d(2), time(2));
        }
        // possibly aliasing pointers with a relation
        1 => {
            s.alg = vec![v(0).mul(c("k1")).sub(v(1)).add(c("k0"))];
            access(&mut s, k(1), v(0), d(0), t(0), v(2), time(0));
            access(&mut s, k(1), v(1), d(1), t(1), d(1), time(1));
            access(&mut s, k(1), v(0), d(2), t(2), d(2), time(2));
        }
        // different address spaces
        2 => {
            access(&mut s, c("k0"), v(0), d(0), t(0), v(2), time(0));
            access(&mut s, c("k1"), v(1), d(1), t(1), d(1), time(1));
            access(&mut s, c("k0"), v(0), d(2), t(2), d(2), time(2));
        }
        3 => {
            access(&mut s, v(2), v(0), d(0), t(0), d(0), time(0));
            access(&mut s, v(2).add(c("k0")), v(0).add(c("k1")), d(1), t(1), v(1), time(1));
            access(&mut s, v(2), v(0), d(2), t(2), d(2), time(2));
        }
        // limbs
        4 => {
            s.alg = vec![lin(&[(1, 0), (2, 1), (-1, 2)], c("k0"))];
            s.bus = vec![range(v(0), 1), range(v(1), 1)];
            access(&mut s, k(1), v(2), d(0), t(0), d(0), time(0));
            access(&mut s, k(1), v(0), d(1), t(1), v(1), time(1));
            access(&mut s, k(1), v(2), d(2), t(2), d(2), time(2));
        }
        // a conditional access in between
        5 => {
            s.alg = vec![boolean(v(1))];
            access(&mut s, k(1), v(0), d(0), t(0), v(2), time(0));
            s.bus.push(mem(v(1).neg(), vec![k(1), c("k0"), d(1), t(1)]));
            s.bus.push(mem(v(1), vec![k(1), c("k0"), d(2), time(1)]));
            access(&mut s, k(1), v(0), d(2), t(2), d(2), time(2));
        }
        // constant addresses
        6 => {
            access(&mut s, k(1), c("k0"), d(0), t(0), v(0), time(0));
            access(&mut s, k(1), c("k1"), d(1), t(1), v(1), time(1));
            access(&mut s, k(1), c("k2"), d(2), t(2), d(2), time(2));
        }
        // unpaired operations
        7 => {
            s.bus.push(mem(k(1), vec![k(1), v(0), d(0), t(0)]));
            s.bus.push(mem(k(1), vec![k(1), v(1), d(1), t(1)]));
            s.bus.push(mem(k(-1), vec![k(1), v(0), d(2), t(2)]));
            s.bus.push(mem(k(-1), vec![k(1), v(1), v(2), v(3)]));
        }
        // separated by ranges
        8 => {
            s.bus = vec![range(v(0), 1), range(v(1), 1)];
            access(&mut s, k(1), v(0).mul(c("k1")), d(0), t(0), v(2), time(0));
            access(&mut s, k(1), v(1).add(c("k0")), d(1), t(1), d(1), time(1));
            access(&mut s, k(1), v(0).mul(c("k1")), d(2), t(2), d(2), time(2));
        }
        9 => {
            s.alg = vec![boolean(v(0)), v(1).mul(v(0)).add(c("k0"))];
            access(&mut s, k(1), v(0).mul(v(1)), d(0), t(0), v(2), time(0));
            access(&mut s, k(1), c("k1"), d(1), t(1), d(1), time(1));
            access(&mut s, k(1), v(0).mul(v(1)), d(2), t(2), d(2), time(2));
        }
        // data linked to the address
        10 => {
            access(&mut s, k(1), v(0), v(1), t(0), v(1).add(c("k0")), time(0));
            access(&mut s, k(1), v(1), d(1), t(1), d(1), time(1));
            access(&mut s, k(1), v(0), d(2), t(2), d(2), time(2));
        }
        // disjunction: y = x + k0 or y = x + k1
        11 => {
            s.alg = vec![v(1).sub(v(0)).sub(c("k0")).mul(v(1).sub(v(0)).sub(c("k1")))];
            access(&mut s, k(1), v(0), d(0), t(0), v(2), time(0));
            access(&mut s, k(1), v(1), d(1), t(1), d(1), time(1));
            access(&mut s, k(1), v(0), d(2), t(2), d(2), time(2));
        }
        // symbolic constant multiplicities
        12 => {
            s.bus.push(mem(k(1), vec![k(1), v(0), d(0), t(0)]));
            s.bus.push(mem(c("m"), vec![k(1), v(0), d(1), t(1)]));
            s.bus.push(mem(k(-1), vec![k(1), v(0), d(2), t(2)]));
        }
        _ => unreachable!(),
    }
    s
}
fn memory<T: Fld>() {
    let s = mtmpl::<T>(choose(NM));
    let o = Flow { honest: true, satisfiable: false };
    let Some(mut solver) = solver_for(&s) else { return };
    let new = optimize_memory::<T, Vr, ToyMem<T, Vr>>(s.sys(), &mut solver, Some(MEM as u64));
    if new.bus_interactions.len() < s.bus.len() {
        cover("accesses removed");
    } else {
        cover("accesses kept");
    }
    check_flow(&s, &new, o);
}
/// No memory bus: nothing changes.
fn memory_none<T: Fld>() {
    let s = mtmpl::<T>(choose(3));
    let Some(mut solver) = solver_for(&s) else { return };
    let new = optimize_memory::<T, Vr, ToyMem<T, Vr>>(s.sys(), &mut solver, None);
    check_flow(&s, &new, Flow::default());
}

// ---------------------------------------------------------- range checks
pub const NG: usize = 12;
fn gtmpl<T: Fld>(n: usize) -> Spec<T> {
    let mut s = spec::<T>(3);
    let m = |a: Vec<Tr<T>>| mem(k(1), a);
    match n {
        0 => s.bus = vec![range(v(0), 2), range(v(0), 1), range(v(1), 1), range(v(1), 0), m(vec![v(0), v(1)])],
        1 => s.bus = vec![range(v(0).mul(c("k0")).add(c("k1")), 1), range(v(0), 2), m(vec![v(0)])],
        2 => s.bus = vec![(XOR, k(1), vec![v(0), k(0), v(0)]), (XOR, k(1), vec![k(0), v(1), v(1)]), (XOR, k(1), vec![v(2), v(2), k(0)]), range(v(2), 3)],
        3 => s.bus = vec![(XOR, k(1), vec![v(0), c("k0"), v(0)]), (XOR, k(1), vec![v(1), v(2), c("k0")])],
        4 => {
            s.alg = vec![boolean(v(0)), v(1).sub(v(0)).sub(c("k0"))];
            s.bus = vec![range(v(0), 1), range(v(0), 2), range(v(1), 1), range(v(1), 2)];
        }
        // conditional range checks
        5 => s.bus = vec![(RANGE, v(1), vec![v(0), k(1)]), range(v(0), 2), (RANGE, c("k0"), vec![v(2), k(1)]), range(v(2), 2)],
        6 => {
            s.alg = vec![lin(&[(1, 0), (2, 1), (-1, 2)], c("k0"))];
            s.bus = vec![range(v(0), 1), range(v(1), 1), range(v(2), 2)];
        }
        7 => s.bus = vec![range(v(0).mul(v(1)), 1), range(v(0), 1), range(v(1), 1), range(v(0).mul(v(1)).add(v(2)), 2)],
        8 => s.bus = vec![(RANGE, k(1), vec![v(0), v(1)]), range(v(1), 1), range(v(0), 2)],
        9 => s.bus = vec![(XOR, k(1), vec![v(0), v(1), v(2)]), range(v(0), 2), range(v(2), 2), range(v(1), 1)],
        10 => s.bus = vec![range(v(0).sub(v(1)), 1), range(v(1).sub(v(0)), 1), range(lin(&[(1, 0), (1, 1)], c("k0")), 2)],
        11 => {
            s.alg = vec![v(0).add(c("k0")), v(1).mul(v(1)).sub(c("k1"))];
            s.bus = vec![range(v(0), 1), range(v(1), 1), range(v(1), 2), range(c("k2"), 2)];
        }
        _ => unreachable!(),
    }
    s
}
fn ranges<T: Fld>() {
    let s = gtmpl::<T>(choose(NG));
    let b = DegreeBound { identities: 1 + choose(4), bus_interactions: 2 };
    let before = sys_degree(&s.sys());
    match attempt(|| optimize_range_constraints(s.sys(), ToyBus::<T>::new(), b)) {
        Ok(new) => {
            let d = sys_degree(&new);
            note(|| format!("{}: degree {d:?}, bound {b:?}: {}", s.show(), show_sys(&new)));
            check_bool(d.0 <= b.identities.max(before.0), "range checks violate the degree bound");
            check_bool(d.1 <= before.1, "range checks increase the degree of bus interactions");
            check_flow(&s, &new, Flow::default());
        }
        Err(e) => check_unsat(&s, Flow::default(), &format!("the optimizer fails on a satisfiable system: {e}")),
    }
}

// ----------------------------------------------------- low degree lookups
pub const NL: usize = 12;
fn ltmpl<T: Fld>(n: usize) -> Spec<T> {
    let mut s = spec::<T>(3);
    let x = |m: Tr<T>, a: Tr<T>, b: Tr<T>, z: Tr<T>| (XOR, m, vec![a, b, z]);
    match n {
        0 => s.bus = vec![range(v(0), 1), range(v(1), 1), x(k(1), v(0), v(1), v(2))],
        1 => s.bus = vec![range(v(0), 1), x(k(1), v(0), c("k0"), v(2))],
        2 => s.bus = vec![x(k(1), v(0), c("k0"), v(2))],
        3 => s.bus = vec![x(k(1), v(0), v(1), v(2))],
        // conditional
        4 => {
            s.alg = vec![boolean(v(2))];
            s.bus = vec![range(v(0), 1), x(v(2), v(0), k(1), v(1))];
        }
        5 => s.bus = vec![range(v(0), 1), x(c("k0"), v(0), k(1), v(1))],
        // ranges from algebraic constraints
        6 => {
            s.alg = vec![boolean(v(0)), boolean(v(1))];
            s.bus = vec![x(k(1), v(0), v(1), v(2))];
        }
        7 => {
            s.alg = vec![v(0).sub(c("k0")).mul(v(0).sub(c("k1")))];
            s.bus = vec![x(k(1), v(0), c("k2"), v(1)), range(v(2), 1)];
        }
        8 => s.bus = vec![range(v(0), 1), range(v(1), 1), x(k(1), v(0).add(v(1)), c("k0"), v(2))],
        9 => s.bus = vec![range(v(0), 1), range(v(2), 1), x(k(1), v(0).mul(v(2)), k(1), v(1))],
        10 => s.bus = vec![(RANGE, k(1), vec![v(0), v(1)]), range(v(1), 1)],
        11 => {
            s.alg = vec![v(0).sub(v(1)).sub(c("k0"))];
            s.bus = vec![range(v(0), 1), x(k(1), v(0), v(1), v(2)), range(v(1), 1)];
        }
        _ => unreachable!(),
    }
    s
}
fn lookups<T: Fld>() {
    let s = ltmpl::<T>(choose(NL));
    let b = DegreeBound { identities: 1 + choose(3), bus_interactions: 2 };
    let before = sys_degree(&s.sys());
    let Some(mut solver) = solver_for(&s) else { return };
    let r = attempt(|| LowDegreeBusInteractionOptimizer::new(&mut solver, ToyBus::<T>::new(), b).optimize(s.sys()));
    match r {
        Ok(new) => {
            let d = sys_degree(&new);
            note(|| format!("{}: degree {d:?}, bound {b:?}: {}", s.show(), show_sys(&new)));
            check_bool(d.0 <= b.identities.max(before.0), "a replaced lookup violates the degree bound");
            if new.algebraic_constraints.len() > s.alg.len() {
                cover("lookup replaced");
            }
            check_flow(&s, &new, Flow::default());
        }
        Err(e) if e.contains("Expected exactly one multilinear extension") => cover("ambiguous function"),
        Err(e) => check_unsat(&s, Flow::default(), &format!("the optimizer fails on a satisfiable system: {e}")),
    }
}

// ------------------------------------------------- single simplifications
fn exhaustive<T: Fld>() {
    let n = choose(NT + NG);
    let s: Spec<T> = if n < NT { template(n) } else { gtmpl(n - NT) };
    if s.nv > 4 || !s.ranges.is_empty() {
        return;
    }
    let Some(solver) = solver_for(&s) else { return };
    let cs: IndexedConstraintSystem<T, Vr> = s.sys().into();
    let new: ConstraintSystem<T, Vr> = simplify_constraints_using_exhaustive_search(cs, &solver).into();
    if new.algebraic_constraints.len() > s.alg.len() {
        cover("simplified");
    }
    check_flow(&s, &new, Flow::default());
}
fn disconnected<T: Fld>() {
    let s = ptmpl::<T>(choose(NP));
    let Some(mut solver) = solver_for(&s) else { return };
    let cs: IndexedConstraintSystem<T, Vr> = s.sys().into();
    let new: ConstraintSystem<T, Vr> = remove_disconnected_columns(cs, &mut solver, ToyBus::<T>::new()).into();
    if sys_refs(&new).len() < s.nv {
        cover("columns removed");
    }
    check_flow(&s, &new, Flow { honest: false, satisfiable: true });
}

// ---------------------------------------------------------- the pipeline
fn aref(i: u16) -> AlgebraicReference {
    AlgebraicReference { name: Arc::new(Vr(i).to_string()), id: i as u64 }
}
pub fn to_alg<T: Fld>(t: &Tr<T>) -> AlgebraicExpression<T> {
    match t {
        Tr::V(i) => AlgebraicExpression::Reference(aref(*i)),
        Tr::K(n) => AlgebraicExpression::Number(*n),
        Tr::Add(a, b) => to_alg(a) + to_alg(b),
        Tr::Sub(a, b) => to_alg(a) - to_alg(b),
        Tr::Mul(a, b) => to_alg(a) * to_alg(b),
        Tr::Neg(a) => -to_alg(a),
    }
}
pub fn from_alg<T: Fld>(e: &AlgebraicExpression<T>) -> Tr<T> {
    use powdr_expression::{AlgebraicBinaryOperator as Op, AlgebraicUnaryOperator as Un};
    match e {
        AlgebraicExpression::Reference(r) => Tr::V(r.id as u16),
        AlgebraicExpression::Number(n) => Tr::K(*n),
        AlgebraicExpression::BinaryOperation(b) => {
            let (l, r) = (from_alg(&b.left), from_alg(&b.right));
            match b.op {
                Op::Add => l.add(r),
                Op::Sub => l.sub(r),
                Op::Mul => l.mul(r),
            }
        }
        AlgebraicExpression::UnaryOperation(u) => match u.op {
            Un::Minus => from_alg(&u.expr).neg(),
        },
    }
}
pub fn to_machine<T: Fld>(s: &Spec<T>) -> SymbolicMachine<T> {
    SymbolicMachine {
        constraints: s.alg.iter().map(|t| to_alg(t).into()).collect(),
        bus_interactions: s
            .bus
            .iter()
            .map(|(id, m, a)| SymbolicBusInteraction {
                id: *id as u64,
                mult: to_alg(m),
                args: a.iter().map(to_alg).collect(),
            })
            .collect(),
        derived_columns: vec![],
    }
}
pub fn from_machine<T: Fld>(m: &SymbolicMachine<T>) -> Sys<T> {
    ConstraintSystem {
        algebraic_constraints: m
            .constraints
            .iter()
            .map(|c| AlgebraicConstraint::assert_zero(from_alg(&c.expr).ge()))
            .collect(),
        bus_interactions: m
            .bus_interactions
            .iter()
            .map(|b| BusInteraction {
                bus_id: num(T::cst(b.id as i64)),
                multiplicity: from_alg(&b.mult).ge(),
                payload: b.args.iter().map(|a| from_alg(a).ge()).collect(),
            })
            .collect(),
        derived_variables: m
            .derived_columns
            .iter()
            .map(|d| {
                let m = match &d.computation_method {
                    ComputationMethod::Constant(c) => ComputationMethod::Constant(*c),
                    ComputationMethod::QuotientOrZero(a, b) => {
                        ComputationMethod::QuotientOrZero(from_alg(a).ge(), from_alg(b).ge())
                    }
                };
                DerivedVariable::new(Vr(d.variable.id as u16), m)
            })
            .collect(),
    }
}
pub const NP: usize = 22;
/// Systems for the whole pipeline.
fn ptmpl<T: Fld>(n: usize) -> Spec<T> {
    let out = |a: Vec<Tr<T>>| mem::<T>(k(1), [vec![k(1), c("adr")], a].concat());
    let mut s = spec::<T>(3);
    match n {
        // boolean flag chooses a value
        0 => {
            s.alg = vec![boolean(v(0)), v(1).sub(v(0).mul(c("k0"))).sub(c("k1"))];
            s.bus = vec![out(vec![v(1), v(2)])];
        }
        // two limbs with a carry
        1 => {
            s.alg = vec![lin(&[(1, 0), (-1, 1), (-4, 2)], c("k0")), boolean(v(2))];
            s.bus = vec![range(v(0), 2), range(v(1), 2), out(vec![v(0), v(1)])];
        }
        // is-zero gadget: x * inv = 1 - z, z * x = 0
        2 => {
            s.alg = vec![v(0).mul(v(1)).sub(k(1)).add(v(2)), v(2).mul(v(0))];
            s.bus = vec![out(vec![v(0), v(2)])];
        }
        // free variables
        3 => {
            s.alg = vec![v(0).mul(c("k0")).sub(v(1)).add(c("k1"))];
            s.bus = vec![out(vec![v(1), v(2)])];
        }
        4 => {
            s.alg = vec![v(0).mul(v(1)).sub(v(2)).add(c("k0"))];
            s.bus = vec![out(vec![v(1), v(2)])];
        }
        5 => {
            s.bus = vec![range(v(0).mul(c("k0")).add(v(1)), 1), out(vec![v(1), v(2)])];
        }
        6 => {
            s.bus = vec![range(v(0).mul(v(1)).add(c("k0")), 1), out(vec![v(1), v(2)])];
        }
        7 => {
            s.alg = vec![v(0).sub(v(1)).sub(c("k0")).mul(v(2).sub(c("k1")))];
            s.bus = vec![out(vec![v(1), v(2)])];
        }
        // disconnected part
        8 => {
            s.alg = vec![v(0).mul(v(0)).sub(c("k0")), v(1).sub(c("k1"))];
            s.bus = vec![range(v(0), 2), out(vec![v(1), v(2)])];
        }
        // lookups
        9 => {
            s.bus = vec![range(v(0), 1), range(v(1), 1), (XOR, k(1), vec![v(0), v(1), v(2)]), out(vec![v(0), v(1).add(v(2))])];
        }
        10 => {
            s.alg = vec![v(1).sub(c("k0"))];
            s.bus = vec![(XOR, k(1), vec![v(0), v(1), v(2)]), out(vec![v(0), v(2)])];
        }
        // conditional interaction
        11 => {
            s.alg = vec![boolean(v(0)), v(0).sub(c("k0")).mul(v(1))];
            s.bus = vec![(RANGE, v(0), vec![v(1).sub(v(2)), k(1)]), mem(v(0), vec![k(1), k(2), v(1), v(2)])];
        }
        // duplicated and redundant constraints
        12 => {
            s.alg = vec![v(0).mul(v(0)).mul(v(1)), v(0).mul(v(1)), v(0).mul(c("k0")).mul(v(1).sub(c("k1"))), v(2).sub(v(2))];
            s.bus = vec![range(v(0), 1), range(v(0), 1), out(vec![v(0), v(1)]), out(vec![v(0), v(1)])];
        }
        // memory: write then read back
        13 => {
            s.nv = 6;
            access(&mut s, k(1), v(0), v(1), v(2), v(1).add(c("k0")), k(2));
            access(&mut s, k(1), v(0).add(c("k1")), v(3), v(4), v(5), k(3));
        }
        14 => {
            s.nv = 6;
            s.alg = vec![v(5).sub(v(3)).sub(c("k0"))];
            s.bus = vec![range(v(1), 1)];
            access(&mut s, k(1), v(0), v(1), v(2), v(1), k(2));
            access(&mut s, k(1), v(0), v(3), v(4), v(5), k(3));
        }
        // execution bridge over two instructions
        15 => {
            s.nv = 4;
            s.alg = vec![v(2).sub(v(0)).sub(c("k0"))];
            s.bus = vec![
                (EXEC, k(-1), vec![v(0), v(1)]),
                (EXEC, k(1), vec![v(0).add(k(4)), v(1).add(k(1))]),
                (EXEC, k(-1), vec![v(2), v(3)]),
                (EXEC, k(1), vec![v(2).mul(c("k1")), v(3).add(k(1))]),
            ];
        }
        // one-hot opcode flags
        16 => {
            s.nv = 4;
            s.alg = vec![
                boolean(v(0)), boolean(v(1)), lin(&[(1, 0), (1, 1)], k(-1)),
                v(0).mul(v(2).sub(v(3)).sub(c("k0"))), v(1).mul(v(2).sub(v(3).mul(c("k1")))),
            ];
            s.bus = vec![out(vec![v(2), v(3)]), mem(k(1), vec![k(2), k(2), lin(&[(1, 0), (2, 1)], k(0)), k(1)])];
        }
        // flag derived through exhaustive search, circular ranges
        17 => {
            s.alg = vec![boolean(v(0)), v(0).mul(v(1)), k::<T>(1).sub(v(0)).mul(v(1).sub(c("k0")))];
            s.bus = vec![out(vec![v(0), v(1)])];
        }
        18 => {
            s.alg = vec![v(0).mul(v(1)), v(0).mul(v(2))];
            s.bus = vec![range(v(1), 1), range(v(2), 1), out(vec![v(0), v(1).add(v(2))])];
        }
        // quadratic equivalence of two limb decompositions
        19 => {
            let e = |i: u16, n: &str| lin(&[(1, 0), (1, i)], c(n));
            s.alg = vec![e(1, "k0").mul(e(1, "k1")), e(2, "k0").mul(e(2, "k1"))];
            s.bus = vec![range(v(1), 1), range(v(2), 1), out(vec![v(0), v(1).add(v(2))])];
        }
        // two is-zero gadgets on the same value
        20 | 21 => {
            s.nv = 5;
            for i in [1u16, 3] {
                s.alg.push(v(0).mul(v(i)));
                s.alg.push(v(0).mul(v(i + 1)).add(v(i)).sub(k(1)));
            }
            s.bus = vec![range(v(0), 2), out(if n == 20 { vec![v(0), v(1).mul(c("k0")).add(v(3))] } else { vec![v(0), v(3)] })];
        }
        _ => unreachable!(),
    }
    s
}
fn pipeline<T: Fld>(s: Spec<T>, bound: DegreeBound) {
    let mut ids = vec![(MEM as u64, BusType::Memory), (PCL as u64, BusType::PcLookup), (RANGE as u64, BusType::Other("range".to_string())), (XOR as u64, BusType::Other("xor".to_string()))];
    if s.bus.iter().any(|b| b.0 == EXEC) {
        ids.push((EXEC as u64, BusType::ExecutionBridge));
    }
    let map = BusMap::from_id_type_pairs(ids);
    let machine = to_machine(&s);
    let alloc = ColumnAllocator::from_max_poly_id_of_machine(&machine);
    let o = Flow { honest: true, satisfiable: true };
    let r = attempt(|| {
        optimize::<T, _, _, ToyMem<T, AlgebraicReference>>(machine, ToyBus::<T>::new(), bound, &map, alloc, &mut ExportOptions::default())
    });
    match r {
        Ok(Ok((m, _))) => {
            let new = from_machine(&m);
            check_bool(
                m.constraints.iter().all(|c| from_alg(&c.expr).degree() <= bound.identities),
                "the result violates the degree bound",
            );
            check_flow(&s, &new, o);
        }
        Ok(Err(_)) => check_unsat(&s, o, "a satisfiable system is reported as contradictory"),
        Err(e) if e.contains("Expected exactly one multilinear extension") => cover("ambiguous function"),
        Err(e) => check_unsat(&s, o, &format!("the optimizer fails on a satisfiable system: {e}")),
    }
}
fn pipe<T: Fld>() {
    let s = ptmpl::<T>(choose(NP));
    let bound = DegreeBound { identities: 3, bus_interactions: 2 };
    pipeline(s, bound)
}
fn pipe_general<T: Fld>() {
    let mut s = template::<T>(choose(NT));
    if s.nv > 4 || !s.ranges.is_empty() {
        return;
    }
    // everything is observable
    for i in 0..s.nv as u16 {
        s.bus.push(mem(k(1), vec![k(1), k(i as i64), v(i), k(1)]));
    }
    pipeline(s, DegreeBound { identities: 3, bus_interactions: 2 })
}

const F10: &[&str] = &["optimize_memory", "redundant_memory_interactions_indices", "Solver::are_expressions_known_to_be_different"];
const F11: &[&str] = &["optimize_range_constraints", "AlgebraicConstraint::assert_bool", "Solver::range_constraint_for_expression"];
const F12: &[&str] = &["LowDegreeBusInteractionOptimizer::{optimize,try_replace_bus_interaction,find_low_degree_function,concrete_input_output_pairs}", "hypotheses"];
const F13: &[&str] = &["optimizer::optimize", "optimize_exec_bus", "optimize_constraints", "remove_free_variables", "remove_disconnected_columns",
    "simplify_constraints_using_exhaustive_search", "trivial_simplifications", "substitute_bus_interaction_fields", "symbolic_machine_to_constraint_system",
    "constraint_system_to_symbolic_machine", "rule_based_optimization", "inliner"];
pub fn jobs(v: &mut Vec<Job>) {
    let b = "symbolic constants and variable values";
    v.push(Job::new("C10", "C10.memory.13", memory::<S13>).bounds(format!("p=13; 13 access sequences (<= 3 accesses, two-part addresses, conditional accesses), {b}")).functions(F10).split(&[NM]));
    v.push(Job::new("C10", "C10.memory.29", memory::<S29>).bounds(format!("p=29; 13 access sequences (<= 3 accesses, two-part addresses, conditional accesses), {b}")).functions(F10).split(&[NM]));
    v.push(Job::new("C10", "C10.none.13", memory_none::<S13>).bounds(format!("p=13; no memory bus, {b}")).functions(F10).split(&[3]));
    v.push(Job::new("C11", "C11.ranges.13", ranges::<S13>).bounds(format!("p=13; 12 systems with range checks, degree bounds 1..4, {b}")).functions(F11).split(&[NG]));
    v.push(Job::new("C11", "C11.ranges.29", ranges::<S29>).bounds(format!("p=29; 12 systems with range checks, degree bounds 1..4, {b}")).functions(F11).split(&[NG]));
    v.push(Job::new("C12", "C12.lookups.13", lookups::<S13>).bounds(format!("p=13; 12 systems with lookups, degree bounds 1..3, {b}")).functions(F12).split(&[NL]));
    v.push(Job::new("C12", "C12.lookups.29", lookups::<S29>).bounds(format!("p=29; 12 systems with lookups, degree bounds 1..3, {b}")).functions(F12).split(&[NL]));
    v.push(Job::new("C13", "C13.pipeline.13", pipe::<S13>).bounds(format!("p=13; 22 systems through the whole optimizer, {b}")).functions(F13).split(&[NP]).cost(3));
    v.push(Job::new("C13", "C13.general.13", pipe_general::<S13>).bounds(format!("p=13; generic systems, all variables observable, {b}")).functions(F13).split(&[NT]));
    v.push(Job::new("C13", "C13.exhaustive.13", exhaustive::<S13>).bounds(format!("p=13; {b}")).functions(F13).split(&[NT + NG]));
    v.push(Job::new("C13", "C13.disconnected.13", disconnected::<S13>).bounds(format!("p=13; 22 systems, {b}")).functions(F13).split(&[NP]));
}
