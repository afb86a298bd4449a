//! Inlining (C08), rule-based optimization (C09).
use crate::c_range::allows;
use crate::field::*;
use crate::jobs::Job;
use crate::sysu::*;
use crate::tmpl::*;
use crate::toybus::*;
use powdr_constraint_solver::constraint_system::ConstraintSystem;
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::inliner::{
    inline_everything_below_degree_bound, replace_constrained_witness_columns, DegreeBound,
};
use powdr_constraint_solver::range_constraint::RangeConstraint as RC;
use powdr_constraint_solver::rule_based_optimizer::rule_based_optimization;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use symcore::*;

pub type Env<T> = BTreeMap<Vr, T>;

pub fn sys_refs<T: Fld>(s: &Sys<T>) -> BTreeSet<Vr> {
    s.algebraic_constraints
        .iter()
        .map(|c| &c.expression)
        .chain(s.bus_interactions.iter().flat_map(|b| b.fields()))
        .flat_map(|e| refs(e))
        .collect()
}
/// All constraints hold and all stateless interactions are allowed.
pub fn sys_sat<T: Fld>(s: &Sys<T>, env: &dyn Fn(&Vr) -> T) -> B {
    alg_sat(&s.algebraic_constraints, env)
        .and(B::all(s.bus_interactions.iter().map(|b| bus_ok(&eval_bus(b, env)))))
}
/// The messages on the stateful bus.
pub fn mem_msgs<T: Fld>(s: &Sys<T>, env: &dyn Fn(&Vr) -> T) -> Vec<Bi<T>> {
    let mem = T::cst(MEM);
    s.bus_interactions.iter().map(|b| eval_bus(b, env)).filter(|b| b.id == mem).collect()
}
fn msg_eq<T: Fld>(a: &Bi<T>, b: &Bi<T>) -> B {
    if a.args.len() != b.args.len() {
        return B::FALSE;
    }
    a.mult.eqt(&b.mult).and(B::all(a.args.iter().zip(&b.args).map(|(x, y)| x.eqt(y))))
}
/// Same messages in any order.
pub fn msgs_eq<T: Fld>(a: &[Bi<T>], b: &[Bi<T>]) -> B {
    if a.len() != b.len() {
        return B::FALSE;
    }
    if a.is_empty() {
        return B::TRUE;
    }
    B::any((0..b.len()).map(|i| {
        let mut r = b.to_vec();
        let x = r.remove(i);
        msg_eq(&a[0], &x).and(msgs_eq(&a[1..], &r))
    }))
}
fn spec_msgs<T: Fld>(s: &Spec<T>, env: &[T]) -> Vec<Bi<T>> {
    s.bus.iter().filter(|b| b.0 == MEM).map(|b| bval(b, env)).collect()
}
pub fn sys_degree<T: Fld>(s: &Sys<T>) -> (usize, usize) {
    (
        s.algebraic_constraints.iter().map(|c| c.expression.degree()).max().unwrap_or(0),
        s.bus_interactions.iter().flat_map(|b| b.fields()).map(|e| e.degree()).max().unwrap_or(0),
    )
}
pub fn show_sys<T: Fld>(s: &Sys<T>) -> String {
    let mut v: Vec<String> = s.algebraic_constraints.iter().map(|c| format!("{} = 0", c.expression)).collect();
    v.extend(s.bus_interactions.iter().map(|b| b.to_string()));
    v.extend(s.derived_variables.iter().map(|d| format!("{} := {}", d.variable, d.computation_method)));
    v.join("; ")
}

/// Equivalence of a specified system and its optimized form.
/// * every solution of the original, extended by the derived variables, solves the result,
///   satisfies the reported substitutions and has the same stateful messages;
/// * every solution of the result extends (variables that are gone or in `free`, over the
///   given domain) to a solution of the original with the same messages.
pub fn check_equiv<T: Fld>(
    s: &Spec<T>,
    new: &Sys<T>,
    subs: &[(Vr, Ge<T>)],
    free: &[(u16, Vec<i64>)],
) {
    let env = fresh_env::<T>(s.nv);
    // completeness
    let mut full: Env<T> = env.iter().enumerate().map(|(i, x)| (Vr(i as u16), *x)).collect();
    for d in &new.derived_variables {
        let x = eval_method(&d.computation_method, &|v: &Vr| full[v]);
        full.insert(d.variable, x);
    }
    let look = |v: &Vr| full.get(v).copied().unwrap_or_else(|| limit(format!("unknown variable {v}")));
    let used = sys_refs(new);
    note(|| format!("before: {}  after: {}  substitutions: [{}]  env {full:?}", s.show(), show_sys(new),
        subs.iter().map(|(v, e)| format!("{v} := {e}")).collect::<Vec<_>>().join(", ")));
    for v in &used {
        check_bool(full.contains_key(v), "the result contains a variable without definition");
    }
    let sat = s.sat(&env);
    let msgs = spec_msgs(s, &env);
    check(sat.implies(sys_sat(new, &look)), "a solution is lost");
    if !subs.is_empty() {
        cover("substitution");
        let ok = B::all(subs.iter().map(|(v, e)| look(v).eqt(&eval(e, &look))));
        check(sat.implies(ok), "a reported substitution does not hold");
    }
    check(sat.implies(msgs_eq(&msgs, &mem_msgs(new, &look))), "the stateful messages change");
    // soundness
    let mut vals: Env<T> = env.iter().enumerate().map(|(i, x)| (Vr(i as u16), *x)).collect();
    for d in &new.derived_variables {
        vals.insert(d.variable, T::any(&format!("new_{}", d.variable)));
    }
    let mut gone: Vec<(u16, Vec<i64>)> = free.to_vec();
    let smap: HashMap<Vr, &Ge<T>> = subs.iter().rev().map(|(v, e)| (*v, e)).collect();
    for i in 0..s.nv as u16 {
        if !used.contains(&Vr(i)) && !smap.contains_key(&Vr(i)) && !gone.iter().any(|g| g.0 == i) {
            gone.push((i, (0..T::PRIME as i64).collect()));
        }
    }
    let combos: usize = gone.iter().map(|g| g.1.len()).product();
    if combos > 1500 {
        cover("soundness not checked: too many eliminated variables");
        return;
    }
    fn value<T: Fld>(v: &Vr, vals: &Env<T>, smap: &HashMap<Vr, &Ge<T>>, depth: usize) -> T {
        if depth > 12 {
            limit("cyclic substitutions");
        }
        match smap.get(v) {
            Some(e) => eval(e, &|w: &Vr| value(w, vals, smap, depth + 1)),
            None => vals[v],
        }
    }
    let nsat = sys_sat(new, &|v: &Vr| vals[v])
        .and(B::all(s.ranges.iter().map(|(v, r)| allows(r, value(&Vr(*v), &vals, &smap, 0)))));
    let nmsgs = mem_msgs(new, &|v: &Vr| vals[v]);
    let mut alts = vec![];
    for c in 0..combos {
        let mut c = c;
        let mut w = vals.clone();
        for (v, dom) in &gone {
            w.insert(Vr(*v), T::cst(dom[c % dom.len()]));
            c /= dom.len();
        }
        let oenv: Vec<T> = (0..s.nv as u16).map(|i| value(&Vr(i), &w, &smap, 0)).collect();
        alts.push(s.sat(&oenv).and(msgs_eq(&spec_msgs(s, &oenv), &nmsgs)));
    }
    if combos > 1 {
        cover("existential");
    }
    note(|| format!("before: {}  after: {}  values {vals:?}", s.show(), show_sys(new)));
    check(nsat.implies(B::any(alts)), "a solution is invented");
}

// ------------------------------------------------------------------ inliner
pub const NI: usize = 10;
fn itmpl<T: Fld>(n: usize) -> Spec<T> {
    let mut s = Spec { nv: 4, alg: vec![], bus: vec![], ranges: vec![] };
    match n {
        0 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0)], c("k0")).sub(v(1).mul(c("k1"))), v(0).mul(v(1)).add(v(2)), v(1).mul(v(2)).add(c("k2"))];
        }
        1 => {
            s.nv = 3;
            s.alg = vec![v(0).sub(v(1)), v(1).sub(v(2)), v(2).mul(c("k0")).sub(v(0)).add(c("k1"))];
        }
        2 => {
            s.nv = 3;
            s.alg = vec![v(0).mul(v(1)).add(v(2).mul(c("k0"))), v(2).mul(v(2)).add(v(0))];
        }
        3 => {
            s.alg = vec![v(0).sub(v(1).mul(v(2))), v(3).sub(v(0).mul(v(0))), v(3).mul(v(1)).add(c("k0"))];
        }
        4 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (1, 1)], c("k0")), v(1).mul(c("k1")).add(v(2))];
            s.bus = vec![(MEM, v(0), vec![v(1), v(2).mul(v(0))]), range(v(1), 2)];
        }
        5 => {
            s.nv = 3;
            s.alg = vec![v(0).mul(v(0)).add(v(0)).add(v(1)), v(1).sub(v(2)).add(c("k0"))];
            s.bus = vec![(MEM, k(1), vec![v(0), v(1)])];
        }
        6 => {
            s.nv = 3;
            s.alg = vec![v(0).add(v(0).mul(v(1))).add(v(2)), v(2).mul(c("k0")).add(v(1))];
        }
        7 => {
            s.nv = 2;
            s.alg = vec![v(0).add(c("k0")), v(0).mul(c("k2")).add(c("k1")), v(1).sub(v(0))];
            s.bus = vec![(MEM, k(1), vec![v(0), v(1)])];
        }
        8 => {
            s.alg = vec![v(0).sub(v(1).add(k(1)).mul(v(2))), v(1).sub(v(2).mul(v(3))), v(0).mul(v(3)).add(c("k0"))];
            s.bus = vec![(XOR, k(1), vec![v(0), v(1), v(3)])];
        }
        9 => {
            s.alg = vec![lin(&[(1, 0), (1, 1), (1, 2), (1, 3)], c("k0")), lin(&[(1, 0), (-1, 1)], k(0)).mul(c("k1")).add(v(3))];
        }
        _ => unreachable!(),
    }
    s
}
fn inline<T: Fld>(mode: usize) {
    let n = choose(NI + NT);
    let s: Spec<T> = if n < NI { itmpl(n) } else { template(n - NI) };
    if s.nv > 4 || s.ranges.iter().any(|(_, r)| r.is_unconstrained()) {
        return;
    }
    let cs: IndexedConstraintSystem<T, Vr> = s.sys().into();
    let before = sys_degree(cs.system());
    let (new, subs) = if mode == 0 {
        // an arbitrary policy: up to three decisions, then no
        let left = std::cell::Cell::new(4);
        replace_constrained_witness_columns(cs, |_, _, _| {
            if left.get() == 0 {
                return false;
            }
            left.set(left.get() - 1);
            choose_bool()
        })
    } else {
        let b = DegreeBound { identities: 1 + choose(4), bus_interactions: 1 + choose(2) };
        let (new, subs) = replace_constrained_witness_columns(cs, inline_everything_below_degree_bound(b));
        let d = sys_degree(new.system());
        note(|| format!("{}: degrees {d:?} with bound {b:?}: {}", s.show(), show_sys(new.system())));
        check_bool(d.0 <= b.identities.max(before.0), "inlining violates the degree bound for constraints");
        check_bool(d.1 <= b.bus_interactions.max(before.1), "inlining violates the degree bound for bus interactions");
        (new, subs)
    };
    for v in subs.keys() {
        check_bool(!sys_refs(new.system()).contains(v), "an inlined variable is still present");
    }
    let subs: Vec<_> = subs.into_iter().collect();
    check_equiv(&s, new.system(), &subs, &[]);
}

// ------------------------------------------------------------------ rules
pub const NR: usize = 21;
type Free = Vec<(u16, Vec<i64>)>;
fn rtmpl<T: Fld>(n: usize) -> (Spec<T>, Free) {
    let mut s = Spec { nv: 4, alg: vec![], bus: vec![], ranges: vec![] };
    let mut f: Free = vec![];
    let mem = |a: Vec<Tr<T>>| (MEM, k(1), a);
    match n {
        0 => {
            s.alg = vec![v(0).mul(c("k1")).add(c("k0")), v(0).mul(v(1)).add(v(2))];
            s.bus = vec![mem(vec![v(0), v(1), v(2), v(3)])];
        }
        1 => {
            s.nv = 2;
            s.alg = vec![v(0).add(c("k0")).mul(v(0).add(c("k1"))), v(0).mul(v(1)).add(c("k2"))];
            s.bus = vec![mem(vec![v(0), v(1)])];
        }
        // free variables a, b: x*a + y*b = r
        2 => {
            s.alg = vec![v(0).mul(v(2)).add(v(1).mul(v(3))).add(c("k0"))];
            s.bus = vec![range(v(2), 2), range(v(3), 2), mem(vec![v(2), v(3)])];
            f = vec![(0, (0..T::PRIME as i64).collect()), (1, (0..T::PRIME as i64).collect())];
        }
        3 => {
            s.alg = vec![v(0).mul(v(2).sub(v(3))).add(v(1).mul(v(3))).add(v(2).mul(c("k1"))).add(c("k0"))];
            s.bus = vec![range(v(2), 1), range(v(3), 1), mem(vec![v(2), v(3)])];
            f = vec![(0, (0..T::PRIME as i64).collect()), (1, (0..T::PRIME as i64).collect())];
        }
        4 => {
            s.alg = vec![v(0).mul(c("k1")).mul(v(2)).add(v(1).mul(c("k2")).mul(v(3))).sub(k(1))];
            s.bus = vec![range(v(2), 1), range(v(3), 2), mem(vec![v(2), v(3)])];
            f = vec![(0, (0..T::PRIME as i64).collect()), (1, (0..T::PRIME as i64).collect())];
        }
        // x*a = 0, x*b = 0 with non-negative a, b
        5 => {
            s.nv = 3;
            s.alg = vec![v(0).mul(v(1)), v(0).mul(v(2))];
            s.ranges = vec![upto(1, 29), upto(2, 29)];
        }
        6 => {
            s.nv = 3;
            s.alg = vec![v(0).add(c("k0")).mul(v(1).mul(c("k1")).add(k(1))), v(0).add(c("k0")).mul(v(2))];
            s.ranges = vec![upto(1, 5), upto(2, 9)];
        }
        // no-wrap zero sums
        7 => {
            s.nv = 2;
            s.alg = vec![v(0).add(v(1).mul(c("k0")))];
            s.ranges = vec![anyr(0), upto(1, 8)];
        }
        8 => {
            s.nv = 3;
            s.alg = vec![v(0).mul(v(1)).add(v(2))];
            s.ranges = vec![upto(0, 6), upto(1, 6), upto(2, 12)];
        }
        9 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (2, 1), (3, 2)], c("k0"))];
            s.ranges = vec![upto(0, 6), upto(1, 6), upto(2, 6)];
        }
        // one-hot flags
        10 => {
            s.nv = 3;
            s.alg = vec![
                boolean(v(0)), boolean(v(1)), boolean(v(2)), lin(&[(1, 0), (1, 1), (1, 2)], c("k3")),
                v(0).mul(c("k0")).add(v(1).mul(c("k1"))).add(v(2).mul(c("k2"))).add(c("k4")),
            ];
            s.ranges = (0..3).map(|i| msk(i, 1)).collect();
        }
        11 => {
            s.nv = 3;
            s.alg = vec![
                lin(&[(2, 0), (2, 1), (2, 2)], k(-2)),
                v(0).mul(c("k0")).add(v(1).mul(c("k1"))).add(c("k4")),
            ];
            s.ranges = (0..3).map(|i| msk(i, 1)).collect();
        }
        // quadratic equivalence
        12 => {
            s.nv = 3;
            let e = |i: u16| lin(&[(1, 0), (1, i)], k(0));
            s.alg = vec![e(1).mul(e(1).add(c("k0"))), e(2).mul(e(2).add(c("k1")))];
            let r = upto::<T>(1, 29);
            s.ranges = vec![r, (2, r.1)];
        }
        13 => {
            s.nv = 3;
            let e = |i: u16, f: i64| lin(&[(f, 0), (f, i)], k(0));
            s.alg = vec![e(1, 1).mul(e(1, 1).add(c("k0"))), e(2, 3).mul(e(2, 3).add(c("k1")))];
            let r = anyr::<T>(1);
            s.ranges = vec![r, (2, r.1)];
        }
        14 => {
            s.nv = 3;
            s.alg = vec![
                lin(&[(1, 0), (2, 1)], k(0)).mul(lin(&[(1, 0), (2, 1)], c("k0"))),
                v(0).add(v(2).mul(c("k2"))).mul(v(0).add(v(2).mul(c("k2"))).add(c("k1"))),
            ];
            s.ranges = vec![msk(1, 3), msk(2, 3)];
        }
        // conflicting actions
        15 => {
            s.nv = 3;
            s.alg = vec![v(0).add(c("k0")), v(0).sub(v(1)), v(1).add(c("k1")), v(0).mul(v(2))];
            s.bus = vec![mem(vec![v(0), v(1), v(2)])];
        }
        16 => {
            s.alg = vec![v(0).mul(v(1)), v(0).mul(v(2)), v(0).mul(v(3)), v(1).mul(v(2))];
            s.bus = vec![range(v(1), 1), range(v(2), 1), range(v(3), 1)];
        }
        // the range of the factor comes from the constraint itself
        17 => {
            s.nv = 2;
            s.alg = vec![v(0).mul(k::<T>(1).sub(v(0))), v(0).mul(v(1))];
            s.bus = vec![range(v(1), 1), mem(vec![v(0), v(1)])];
        }
        18 => {
            s.nv = 3;
            s.alg = vec![v(0).mul(v(1)).add(v(2).mul(v(2))), v(2).mul(v(0))];
            s.bus = vec![range(v(0), 1), range(v(1), 1), range(v(2), 1), mem(vec![v(0), v(1), v(2)])];
        }
        19 => {
            s.nv = 3;
            s.alg = vec![v(0).sub(c("k0")).mul(v(0).sub(c("k1"))), lin(&[(1, 0), (1, 1)], k(0)), v(1).mul(v(2))];
            s.bus = vec![range(v(0), 2), mem(vec![v(0), v(1), v(2)])];
        }
        // the four-limb comparison with zero
        20 => return seqz(true),
        _ => unreachable!(),
    }
    (s, f)
}
/// a < 1 over four limbs, the way OpenVM's less-than core expresses it.
/// a0..a3: 0..3, result: 4, markers: 5..8, diff_val: 9
fn seqz<T: Fld>(diff_val_checked: bool) -> (Spec<T>, Free) {
    let mut s = Spec { nv: 10, alg: vec![], bus: vec![], ranges: vec![] };
    let r2 = || v::<T>(4).mul(k(2)).sub(k(1));
    let m = |i: u16| v::<T>(5 + i);
    let neg = |from: u16| (from..4).fold(k::<T>(1), |t, i| t.sub(m(i)));
    for i in [3u16, 2, 1] {
        s.alg.push(neg(i).mul(v(i).mul(k(-1)).mul(r2())));
        s.alg.push(m(i).mul(v(i).mul(r2()).add(v(9))));
    }
    s.alg.push(neg(0).mul(v(4)));
    s.alg.push(neg(0).mul(k::<T>(1).sub(v(0)).mul(r2())));
    s.alg.push(m(0).mul(v(0).sub(k(1)).mul(r2()).add(v(9))));
    let sum = || m(0).add(m(1)).add(m(2)).add(m(3));
    s.alg.push(sum().mul(sum().sub(k(1))));
    for i in 4..9 {
        s.alg.push(boolean(v(i)));
    }
    let bits = if T::PRIME < 20 { 1 } else { 2 };
    for i in 0..4 {
        s.bus.push(range(v(i), bits));
    }
    if diff_val_checked {
        s.bus.push((RANGE, sum(), vec![v(9).sub(k(1)), k(bits)]));
    }
    s.bus.push((MEM, k(1), vec![v(0), v(1), v(2), v(3), v(4)]));
    let mut f: Free = (5..9).map(|i| (i, vec![0, 1])).collect();
    f.push((9, (0..=4).collect()));
    (s, f)
}
struct Given<T: Fld>(Vec<(u16, RC<T>)>);
impl<T: Fld> powdr_constraint_solver::grouped_expression::RangeConstraintProvider<T, Vr> for Given<T> {
    fn get(&self, v: &Vr) -> RC<T> {
        self.0.iter().filter(|x| x.0 == v.0).map(|x| x.1).next().unwrap_or_default()
    }
}
fn rules_on<T: Fld>(s: Spec<T>, f: Free) {
    let cs: IndexedConstraintSystem<T, Vr> = s.sys().into();
    let before = sys_degree(cs.system());
    let bound = if choose_bool() {
        Some(DegreeBound { identities: 3, bus_interactions: 2 })
    } else {
        None
    };
    let mut next = 100;
    let (new, subs) = rule_based_optimization(
        cs,
        Given(s.ranges.clone()),
        ToyBus::<T>::new(),
        &mut |_| {
            next += 1;
            Vr(next)
        },
        bound,
    );
    let new: ConstraintSystem<T, Vr> = new.into();
    let d = sys_degree(&new);
    note(|| format!("{}: degrees {before:?} -> {d:?} with bound {bound:?}: {}", s.show(), show_sys(&new)));
    let lim = before.0.max(bound.map(|b| b.identities).unwrap_or(0));
    check_bool(d.0 <= lim, "rules violate the degree bound");
    check_bool(d.1 <= before.1, "rules increase the degree of bus interactions");
    check_equiv(&s, &new, &subs, &f);
}
fn rules<T: Fld>() {
    let (s, f) = rtmpl::<T>(choose(NR));
    rules_on(s, f)
}
fn rules_diffval<T: Fld>() {
    let (s, f) = seqz::<T>(false);
    rules_on(s, f)
}
fn rules_general<T: Fld>() {
    rules_on(template::<T>(choose(NT)), vec![])
}
const F8: &[&str] = &["replace_constrained_witness_columns", "inline_everything_below_degree_bound",
    "substitution_would_not_violate_degree_bound", "find_inlinable_variables", "IndexedConstraintSystem::{substitute_by_unknown,retain_algebraic_constraints,constraints_referencing_variables}"];
const F9: &[&str] = &["rule_based_optimization", "rules::Crepe (all rules)", "Environment", "batch_replace_algebraic_constraints",
    "is_replacement_within_degree_bound", "undo_variable_transform_and_recreate_new_variables"];
pub fn jobs(v: &mut Vec<Job>) {
    let b = "45 system templates (<= 4 variables), symbolic constants and ranges, all variable values symbolic";
    v.push(Job::new("C08", "C08.policy.13", || inline::<S13>(0)).bounds(format!("p=13; {b}; any policy for the first 4 decisions")).functions(F8).split(&[NI + NT]));
    v.push(Job::new("C08", "C08.degree.13", || inline::<S13>(1)).bounds(format!("p=13; {b}; degree bounds 1..4 / 1..2")).functions(F8).split(&[NI + NT]));
    v.push(Job::new("C09", "C09.rules.13", rules::<S13>).bounds("p=13; 21 systems targeting the rules, symbolic constants and ranges; eliminated variables quantified over the whole field").functions(F9).split(&[NR]).cost(2));
    v.push(Job::new("C09", "C09.rules.29", rules::<S29>).bounds("p=29; 21 systems targeting the rules, symbolic constants and ranges; eliminated variables quantified over the whole field").functions(F9).split(&[NR]));
    v.push(Job::new("C09", "C09.diffval.29", rules_diffval::<S29>).bounds("p=29; the four-limb comparison with zero without a range check on diff_val").functions(F9));
    v.push(Job::new("C09", "C09.general.13", rules_general::<S13>).bounds(format!("p=13; {b}")).functions(F9).split(&[NT]));
}
