//! Solving of single constraints (C05), of systems (C06), solver queries (C07),
//! exhaustive search (C08).
use crate::c_range::{allows, any_rc};
use crate::field::*;
use crate::jobs::Job;
use crate::sysu::*;
use crate::toybus::*;
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, BusInteraction};
use powdr_constraint_solver::effect::Effect;
use powdr_constraint_solver::grouped_expression::{GroupedExpression, RangeConstraintProvider};
use powdr_constraint_solver::range_constraint::RangeConstraint as RC;
use powdr_number::FieldElement;
use std::collections::HashMap;
use symcore::*;

pub type Rcs<T> = HashMap<Vr, RC<T>>;

pub fn in_ranges<T: Fld>(rcs: &Rcs<T>, env: &[T]) -> B {
    let mut ks: Vec<_> = rcs.keys().copied().collect();
    ks.sort();
    B::all(ks.iter().filter(|v| (v.0 as usize) < env.len()).map(|v| allows(&rcs[v], env[v.0 as usize])))
}
pub fn show_rcs<T: Fld>(rcs: &Rcs<T>) -> String {
    let mut ks: Vec<_> = rcs.keys().copied().collect();
    ks.sort();
    ks.iter().map(|v| format!("{v} in {}", rcs[v])).collect::<Vec<_>>().join(", ")
}
fn effect_holds<T: Fld>(e: &Effect<T, Vr>, env: &[T]) -> B {
    match e {
        Effect::Assignment(v, x) => env[v.0 as usize].eqt(x),
        Effect::RangeConstraint(v, r) => allows(r, env[v.0 as usize]),
        Effect::Assertion(a) => {
            if a.expected_equal {
                a.lhs.eqt(&a.rhs)
            } else {
                a.lhs.eqt(&a.rhs).not()
            }
        }
        Effect::ConditionalAssignment { variable, condition, in_range_value, out_of_range_value } => {
            let c = allows(&condition.condition, condition.value);
            let x = env[variable.0 as usize];
            Bv::ite_b(c, x.eqt(in_range_value), x.eqt(out_of_range_value))
        }
    }
}
fn show_effect<T: Fld>(e: &Effect<T, Vr>) -> String {
    match e {
        Effect::Assignment(v, x) => format!("{v} := {x}"),
        Effect::RangeConstraint(v, r) => format!("{v} in {r}"),
        Effect::Assertion(a) => format!("assert {} {} {}", a.lhs, if a.expected_equal { "==" } else { "!=" }, a.rhs),
        Effect::ConditionalAssignment { variable, condition, in_range_value, out_of_range_value } => {
            format!("{variable} := {} in {} ? {in_range_value} : {out_of_range_value}", condition.value, condition.condition)
        }
    }
}
/// Constraint shapes for single-constraint solving.
fn cshape<T: Fld>(k: usize) -> Tr<T> {
    let c = |n: &str| Tr::K(T::any(n));
    let kc = |n: i64| Tr::K(T::cst(n));
    match k {
        0 => Tr::V(0).mul(c("k1")).add(c("k0")),
        1 => Tr::V(0).mul(c("k1")).add(Tr::V(1)).add(c("k0")),
        2 => Tr::V(0).add(c("k0")).mul(Tr::V(0).add(c("k1"))),
        3 => Tr::V(0).add(c("k0")).mul(Tr::V(1).add(c("k1"))),
        4 => Tr::V(0).add(c("k0")).mul(Tr::V(0).sub(Tr::V(1)).add(c("k1"))),
        5 => Tr::V(0).mul(kc(4)).add(Tr::V(1)).add(c("k0")).mul(Tr::V(0).sub(kc(1))),
        6 => Tr::V(0).mul(Tr::V(0).sub(kc(1))).mul(Tr::V(0).sub(c("k0"))),
        7 => Tr::V(0).add(Tr::V(1).mul(kc(2))).add(Tr::V(2).mul(kc(4))).add(c("k0")),
        8 => Tr::V(0).mul(Tr::V(1)).add(Tr::V(2)),
        9 => c("k0"),
        10 => Tr::V(0).mul(kc(2)).sub(kc(2)).mul(Tr::V(0).mul(c("k1")).sub(kc(3))),
        _ => unreachable!(),
    }
}
const NCS: usize = 11;
fn rcs_for<T: Fld>(n: u16, kinds: usize) -> Rcs<T> {
    (0..n).map(|i| (Vr(i), any_rc::<T>(&format!("{}", Vr(i)), kinds))).collect()
}
fn solve_one<T: Fld>(shapes: &'static [usize], kinds: usize) {
    let t = cshape::<T>(pick(shapes));
    let e = t.ge();
    let nv = (0..3).rev().find(|i| refs(&e).contains(&Vr(*i))).map(|i| i + 1).unwrap_or(0);
    let rcs = rcs_for::<T>(nv, kinds);
    let env = fresh_env::<T>(3);
    let r = AlgebraicConstraint::assert_zero(&e).solve(&rcs);
    let inr = in_ranges(&rcs, &env);
    let zero = t.val(&env).zt();
    match r {
        Err(_) => {
            cover("error");
            note(|| format!("{e} = 0 with {}: reported unsatisfiable, but {env:?}", show_rcs(&rcs)));
            check(inr.and(zero).not(), "a satisfiable constraint is reported unsatisfiable");
        }
        Ok(p) => {
            note(|| {
                format!("{e} = 0 with {}: effects [{}] complete={}, env {env:?}", show_rcs(&rcs),
                    p.effects.iter().map(show_effect).collect::<Vec<_>>().join("; "), p.complete)
            });
            let eff = B::all(p.effects.iter().map(|x| effect_holds(x, &env)));
            if p.effects.iter().any(|e| matches!(e, Effect::Assignment(..))) {
                cover("assignment");
            }
            if p.effects.iter().any(|e| matches!(e, Effect::RangeConstraint(..))) {
                cover("range");
            }
            check(inr.and(zero).implies(eff), "solving a constraint loses a solution");
            if p.complete {
                cover("complete");
                check(inr.and(eff).implies(zero), "a complete solution admits more than the constraint");
            }
        }
    }
}
fn solve_for<T: Fld>() {
    let t = cshape::<T>(choose(NCS));
    let e = t.ge();
    let env = fresh_env::<T>(3);
    let zero = t.val(&env).zt();
    let ac = AlgebraicConstraint::assert_zero(&e);
    if choose_bool() {
        let v = choose(3) as u16;
        if let Some(s) = ac.try_solve_for(&Vr(v)) {
            cover("solved");
            note(|| format!("{e} = 0 solved for {}: {s}, env {env:?}", Vr(v)));
            check_bool(!refs(&s).contains(&Vr(v)), "solution mentions the variable");
            let got = eval(&s, &|x: &Vr| env[x.0 as usize]);
            check(zero.iff(env[v as usize].eqt(&got)), "solving for a variable is not an equivalence");
        }
    } else {
        let x = match choose(5) {
            0 => Tr::V(0).add(Tr::K(T::any("x0"))),
            1 => Tr::V(0).mul(Tr::K(T::any("x1"))).add(Tr::V(1)),
            2 => Tr::V(1).mul(Tr::K(T::any("x1"))).add(Tr::V(2).mul(Tr::K(T::cst(4)))),
            3 => Tr::V(0).sub(Tr::V(1)),
            _ => Tr::V(2).mul(Tr::K(T::any("x1"))),
        };
        let xe = x.ge();
        if let Some(s) = ac.try_solve_for_expr(&xe) {
            cover("solved expr");
            note(|| format!("{e} = 0 solved for {xe}: {s}, env {env:?}"));
            let got = eval(&s, &|x: &Vr| env[x.0 as usize]);
            check(zero.iff(x.val(&env).eqt(&got)), "solving for an expression is not an equivalence");
            check_bool(refs(&xe).iter().all(|v| !refs(&s).contains(v)), "solution mentions the expression's variables");
        }
    }
}
fn bus_solve<T: Fld>(kinds: usize) {
    let c = |n: &str| Tr::K(T::any(n));
    let kc = |n: i64| Tr::K(T::cst(n));
    let (id, args): (i64, Vec<Tr<T>>) = match choose(6) {
        0 => (RANGE, vec![Tr::V(0).add(c("k0")), kc(2)]),
        1 => (RANGE, vec![Tr::V(0).mul(c("k1")).add(Tr::V(1)), kc(3)]),
        2 => (RANGE, vec![Tr::V(0).mul(c("k1")).add(c("k0")), Tr::V(1)]),
        3 => (XOR, vec![Tr::V(0), Tr::V(1).add(c("k0")), Tr::V(2)]),
        4 => (XOR, vec![Tr::V(0), c("k0"), Tr::V(1).mul(c("k1"))]),
        _ => (RANGE, vec![Tr::V(0).mul(Tr::V(1)), kc(2)]),
    };
    let mult = if choose_bool() { kc(1) } else { Tr::V(2) };
    let b = BusInteraction {
        bus_id: num(T::cst(id)),
        multiplicity: mult.ge(),
        payload: args.iter().map(|a| a.ge()).collect(),
    };
    let rcs = rcs_for::<T>(2, kinds);
    let env = fresh_env::<T>(3);
    let h = ToyBus::<T>::new();
    let sat = bus_ok(&eval_bus(&b, &|v: &Vr| env[v.0 as usize])).and(in_ranges(&rcs, &env));
    match b.solve(&h, &rcs) {
        Err(_) => {
            cover("error");
            note(|| format!("{b} with {}: reported to violate, env {env:?}", show_rcs(&rcs)));
            check(sat.not(), "a satisfiable bus interaction is reported as violating");
        }
        Ok(effects) => {
            note(|| {
                format!("{b} with {}: effects [{}], env {env:?}", show_rcs(&rcs),
                    effects.iter().map(show_effect).collect::<Vec<_>>().join("; "))
            });
            if !effects.is_empty() {
                cover("effects");
            }
            check(
                sat.implies(B::all(effects.iter().map(|x| effect_holds(x, &env)))),
                "solving a bus interaction loses a solution",
            );
        }
    }
}
const F5: &[&str] = &[
    "AlgebraicConstraint::{solve,try_solve_for,try_solve_for_expr}", "solve_affine", "solve_quadratic",
    "transfer_constraints", "combine_to_conditional_assignment", "combine_range_constraints",
    "BusInteraction::{solve,to_range_constraints}", "BusInteractionHandler::handle_bus_interaction_checked",
];

pub fn jobs(v: &mut Vec<Job>) {
    let b = "one constraint from 11 shapes (linear, products, cubic; <= 3 variables), symbolic coefficients, arbitrary ranges (interval, mask, value) per variable, all variable values symbolic";
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    v.push(Job::new("C05", "C05.solve.13", || solve_one::<S13>(ALL, 3)).bounds(format!("p=13; {b}")).functions(F5).split(&[NCS, 3]).cost(2));
    v.push(Job::new("C05", "C05.solve.29", || solve_one::<S29>(ALL, 2)).bounds(format!("p=29; {b}")).functions(F5).split(&[NCS, 2]).cost(2).thorough());
    v.push(Job::new("C05", "C05.solvefor.13", solve_for::<S13>).bounds(format!("p=13; {b}")).functions(F5).split(&[NCS]));
    v.push(Job::new("C05", "C05.solvefor.29", solve_for::<S29>).bounds(format!("p=29; {b}")).functions(F5).split(&[NCS]).thorough());
    v.push(Job::new("C05", "C05.bus.29", || bus_solve::<S29>(2)).bounds("p=29; one bus interaction on a range or xor bus, affine or quadratic fields with symbolic coefficients, symbolic ranges").functions(F5).split(&[6, 2]).cost(2));
}

// ------------------------------------------------------------------ systems
use crate::tmpl::*;
use powdr_constraint_solver::solver::{new_solver, Solver};

fn setup<T: Fld>(s: &Spec<T>) -> impl Solver<T, Vr> {
    let mut solver = new_solver(s.sys(), ToyBus::<T>::new());
    for (v, r) in &s.ranges {
        solver.add_range_constraint(&Vr(*v), *r);
    }
    solver
}
fn result_ok<T: Fld>(
    s: &Spec<T>,
    r: &Result<Vec<(Vr, Ge<T>)>, powdr_constraint_solver::solver::Error>,
    solver: &impl RangeConstraintProvider<T, Vr>,
    env: &[T],
) -> bool {
    let sat = s.sat(env);
    let ev = |e: &Ge<T>| eval(e, &|v: &Vr| env[v.0 as usize]);
    match r {
        Err(e) => {
            cover("error");
            note(|| format!("{}: error {e:?}, but {env:?} is a solution", s.show()));
            check(sat.not(), "a satisfiable system is reported unsatisfiable");
            false
        }
        Ok(a) => {
            note(|| {
                format!("{}: assignments [{}], ranges [{}], env {env:?}", s.show(),
                    a.iter().map(|(v, e)| format!("{v} := {e}")).collect::<Vec<_>>().join(", "),
                    (0..s.nv as u16).map(|i| format!("{} in {}", Vr(i), solver.get(&Vr(i)))).collect::<Vec<_>>().join(", "))
            });
            if !a.is_empty() {
                cover("assignment");
            }
            let ok = B::all(a.iter().map(|(v, e)| ev(e).eqt(&env[v.0 as usize])));
            check(sat.implies(ok), "the solver derives an assignment that is not implied");
            let rc = B::all((0..s.nv).map(|i| allows(&solver.get(&Vr(i as u16)), env[i])));
            check(sat.implies(rc), "the solver derives a range that excludes a solution");
            true
        }
    }
}
fn system<T: Fld>(ts: &'static [usize]) {
    let s = template::<T>(pick(ts));
    let env = fresh_env::<T>(s.nv);
    let mut solver = setup(&s);
    let r = solver.solve();
    result_ok(&s, &r, &solver, &env);
}
/// constraints arrive in two batches; then a second solve
fn incremental<T: Fld>(ts: &'static [usize]) {
    let s = template::<T>(pick(ts));
    let env = fresh_env::<T>(s.nv);
    let full = s.sys();
    let mut first = s.clone();
    let n = choose(2).min(first.alg.len());
    let late: Vec<_> = first.alg.drain(n..).collect();
    let ranges = std::mem::take(&mut first.ranges);
    let mut solver = setup(&first);
    let r = solver.solve();
    if !result_ok(&first, &r, &solver, &env) {
        return;
    }
    let mut sub: Vec<(Vr, Ge<T>)> = r.unwrap();
    let apply = |e: &Ge<T>, sub: &[(Vr, Ge<T>)]| {
        let mut e = e.clone();
        for (v, x) in sub {
            e.substitute_by_unknown(v, x);
        }
        e
    };
    solver.add_algebraic_constraints(
        late.iter().map(|t| AlgebraicConstraint::assert_zero(apply(&t.ge(), &sub))),
    );
    for (v, r) in &ranges {
        solver.add_range_constraint(&Vr(*v), *r);
    }
    let r2 = solver.solve();
    if result_ok(&s, &r2, &solver, &env) {
        sub.extend(r2.unwrap());
        let ok = B::all(sub.iter().map(|(v, e)| eval(e, &|v: &Vr| env[v.0 as usize]).eqt(&env[v.0 as usize])));
        check(s.sat(&env).implies(ok), "assignments of two rounds are not implied");
    }
    let _ = full;
}
/// queries to the solver after solving
fn queries<T: Fld>(ts: &'static [usize]) {
    let s = template::<T>(pick(ts));
    let env = fresh_env::<T>(s.nv);
    let mut solver = setup(&s);
    let Ok(r) = solver.solve() else { return };
    let last = (s.nv - 1) as u16;
    let q = match choose(6) {
        0 => v::<T>(0),
        1 => lin(&[(1, 0), (1, last)], c("q0")),
        2 => v(0).mul(v(last)),
        3 => v(0).mul(k(2)).sub(v(last)),
        4 => v(last).sub(k(1)).mul(v(last)).add(v(0)),
        _ => v(0).sub(v(last)).mul(v(last)).add(c("q0")),
    };
    let mut e = q.ge();
    for (v, x) in &r {
        e.substitute_by_unknown(v, x);
    }
    let sat = s.sat(&env);
    let val = q.val(&env);
    let rc = solver.range_constraint_for_expression(&e);
    note(|| format!("{}: query {q} -> {e} in {rc}, env {env:?} value {val}", s.show()));
    check(sat.implies(allows(&rc, val)), "range for an expression excludes a reachable value");
    if let Some(n) = solver.try_to_equivalent_constant(&e) {
        cover("constant");
        note(|| format!("{}: {q} is reported constant {n}, env {env:?} value {val}", s.show()));
        check(sat.implies(val.eqt(&n)), "an expression is wrongly reported constant");
    }
    let (o, ov) = if choose_bool() {
        (num(T::cst(0)), T::cst(0))
    } else {
        let t = lin(&[(1, last)], k(1));
        let mut e = t.ge();
        for (v, x) in &r {
            e.substitute_by_unknown(v, x);
        }
        (e, t.val(&env))
    };
    if solver.are_expressions_known_to_be_different(&e, &o) {
        cover("different");
        note(|| format!("{}: {e} and {o} are reported different, env {env:?} values {val} {ov}", s.show()));
        check(sat.implies(val.eqt(&ov).not()), "expressions that can be equal are reported different");
    }
}
const F6: &[&str] = &[
    "new_solver", "Solver::solve", "BaseSolver::{solve_in_isolation,exhaustive_search,apply_assignment,apply_range_constraint_update,add_algebraic_constraints,add_bus_interactions}",
    "try_split_constraint", "find_solution", "BooleanExtractor", "Linearizer", "VarTransformation", "exhaustive_search_on_variable_set", "get_brute_force_candidates",
    "IndexedConstraintSystemWithQueue",
];
pub fn jobs2(v: &mut Vec<Job>) {
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34];
    let b = "35 system templates (<= 4 variables, <= 5 constraints, range/xor buses), symbolic constants and range bounds, all variable values symbolic";
    v.push(Job::new("C06", "C06.system.29", || system::<S29>(ALL)).bounds(format!("p=29; {b}")).functions(F6).split(&[NT]));
    v.push(Job::new("C06", "C06.incremental.29", || incremental::<S29>(ALL)).bounds(format!("p=29; {b}; constraints added in two batches")).functions(F6).split(&[NT]));
    v.push(Job::new("C07", "C07.queries.29", || queries::<S29>(ALL)).bounds(format!("p=29; {b}; 6 query expressions")).functions(F6).split(&[NT]));
}
