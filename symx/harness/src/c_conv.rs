//! Conversions between expression and machine representations (C14), and the
//! indexed constraint system with its queue, reachability and splitting (C15).
use crate::c_apc::{from_alg, to_alg};
use crate::c_expr::shape;
use crate::field::*;
use crate::jobs::Job;
use crate::sysu::*;
use crate::tmpl::{c, k, lin, v as tv};
use crate::toybus::{MEM, RANGE};
use powdr_autoprecompiles::expression::{
    AlgebraicEvaluator, AlgebraicExpression, AlgebraicReference, MappingRowEvaluator, RowEvaluator, WitnessEvaluator,
};
use powdr_autoprecompiles::expression_conversion::{
    algebraic_to_grouped_expression, grouped_expression_to_algebraic,
};
use powdr_autoprecompiles::powdr::{globalize_references, make_bool, make_refs_zero};
use powdr_autoprecompiles::symbolic_machine::{
    constraint_system_to_symbolic_machine, symbolic_machine_to_constraint_system, SymbolicBusInteraction,
    SymbolicConstraint, SymbolicMachine,
};
use powdr_autoprecompiles::symbolic_machine_generator::convert_machine_field_type;
use powdr_constraint_solver::constraint_system::{
    AlgebraicConstraint, BusInteraction, ComputationMethod, ConstraintRef, ConstraintSystem, DerivedVariable,
};
use powdr_constraint_solver::indexed_constraint_system::{
    apply_substitutions, apply_substitutions_to_expressions, IndexedConstraintSystem, IndexedConstraintSystemWithQueue,
};
use powdr_constraint_solver::reachability::{reachable_variables, reachable_variables_except_blocked};
use powdr_constraint_solver::system_splitter::split_system;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use symcore::*;

type Al<T> = AlgebraicExpression<T>;

fn leaf<T: Fld>(n: &str, i: usize) -> Tr<T> {
    match i {
        0 => Tr::V(0),
        1 => Tr::V(1),
        _ => Tr::K(T::any(n)),
    }
}
/// every tree with the given maximal depth over two variables and constants
fn tree<T: Fld>(n: &str, depth: usize) -> Tr<T> {
    let kinds = if depth == 0 { 3 } else { 7 };
    let kind = choose(kinds);
    let sub = |s: &str| Box::new(tree::<T>(&format!("{n}{s}"), depth - 1));
    match kind {
        0..=2 => leaf(n, kind),
        3 => Tr::Add(sub("l"), sub("r")),
        4 => Tr::Sub(sub("l"), sub("r")),
        5 => Tr::Mul(sub("l"), sub("r")),
        _ => Tr::Neg(sub("n")),
    }
}
fn aval<T: Fld>(e: &Al<T>, env: &[T]) -> T {
    from_alg(e).val(env)
}
fn geval<T: Fld>(e: &powdr_constraint_solver::grouped_expression::GroupedExpression<T, AlgebraicReference>, env: &[T]) -> T {
    eval(e, &|v: &AlgebraicReference| env[v.id as usize])
}
/// a and b vanish together (the first two cases imply the third and are cheap)
fn same_zero<T: Fld>(a: T, b: T) -> B {
    a.eqt(&b).or(a.eqt(&-b)).or(a.zt().iff(b.zt()))
}
/// All conversions keep the value for every assignment.
fn convert<T: Fld>(t: Tr<T>) {
    let a = to_alg(&t);
    let env = fresh_env::<T>(3);
    let want = t.val(&env);
    let g = algebraic_to_grouped_expression(&a);
    let back = grouped_expression_to_algebraic(g.clone());
    note(|| format!("{t} -> grouped {g} -> {back} under {env:?}, expected {want}"));
    check(geval(&g, &env).eqt(&want), "conversion to a grouped expression changes the value");
    check(aval(&back, &env).eqt(&want), "conversion back changes the value");
    check_bool(back.degree() <= t.degree(), "conversion raises the degree");
    // constraints: only the zero set matters
    let c: SymbolicConstraint<T> = back.clone().into();
    check(same_zero(aval(&c.expr, &env), want), "a constraint has other solutions than its expression");
    let c: SymbolicConstraint<T> = a.clone().into();
    check(same_zero(aval(&c.expr, &env), want), "a constraint has other solutions than its expression");
    // evaluation
    check(RowEvaluator::new(&env).eval_expr(&a).eqt(&want), "row evaluation is wrong");
    let row: Vec<T> = env.iter().rev().copied().collect();
    let map: BTreeMap<u64, usize> = (0..3).map(|i| (i as u64, 2 - i)).collect();
    check(MappingRowEvaluator::new(&row, &map).eval_expr(&a).eqt(&want), "mapped row evaluation is wrong");
    let wit: BTreeMap<u64, T> = (0..3).map(|i| (i as u64, env[i])).collect();
    let w = WitnessEvaluator::<T, T, T>::new(&wit).eval_expr(&a);
    check(w.eqt(&want), "witness evaluation is wrong");
    // zeroing and booleans
    let mut z = a.clone();
    make_refs_zero(&mut z);
    let zero = vec![T::cst(0); 3];
    check(aval(&z, &env).eqt(&t.val(&zero)), "zeroed expression has another value");
    let b = make_bool(a);
    let bv = aval(&b, &env);
    // w * (w - 1) vanishes exactly for 0 and 1, which spares the solver the general equivalence
    let p = want * (want - T::cst(1));
    check(
        bv.eqt(&p).or(bv.eqt(&-p)).or(bv.zt().iff(want.zt().or(want.eqt(&T::cst(1))))),
        "the boolean constraint does not mean 0 or 1",
    );
}

/// A parser for the printed form: sums of products of (signed) atoms.
struct Ps<'a> {
    s: &'a [u8],
    i: usize,
}
impl Ps<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn sum<T: Fld>(&mut self) -> Tr<T> {
        let mut l = self.prod();
        loop {
            match self.peek() {
                b'+' => {
                    self.i += 1;
                    l = l.add(self.prod());
                }
                b'-' => {
                    self.i += 1;
                    l = l.sub(self.prod());
                }
                _ => return l,
            }
        }
    }
    fn prod<T: Fld>(&mut self) -> Tr<T> {
        let mut l = self.atom();
        while self.peek() == b'*' {
            self.i += 1;
            l = l.mul(self.atom());
        }
        l
    }
    fn atom<T: Fld>(&mut self) -> Tr<T> {
        match self.peek() {
            b'-' => {
                self.i += 1;
                self.atom::<T>().neg()
            }
            b'(' => {
                self.i += 1;
                let r = self.sum();
                check_bool(self.peek() == b')', "unbalanced parentheses");
                self.i += 1;
                r
            }
            x if x.is_ascii_lowercase() => {
                self.i += 1;
                let d = self.peek();
                self.i += 1;
                Tr::V((d - b'0') as u16)
            }
            b'<' => {
                // <s12>: a symbolic constant
                let e = self.i + self.s[self.i..].iter().position(|c| *c == b'>').unwrap();
                let t = std::str::from_utf8(&self.s[self.i..=e]).unwrap().to_string();
                self.i = e + 1;
                Tr::K(T::from_printed(&t))
            }
            x if x.is_ascii_digit() => {
                let mut n = 0;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    n = 10 * n + (self.s[self.i] - b'0') as i64;
                    self.i += 1;
                }
                Tr::K(T::cst(n))
            }
            x => limit(format!("unexpected character {:?}", x as char)),
        }
    }
}
/// leaves are columns named x0, x1, x2
fn vtree<T: Fld>(depth: usize) -> Tr<T> {
    match choose(if depth == 0 { 2 } else { 6 }) {
        0 => Tr::V(0),
        1 => c(&format!("k{}", fresh_ix())),
        2 => vtree(depth - 1).add(vtree(depth - 1)),
        3 => vtree(depth - 1).sub(vtree(depth - 1)),
        4 => vtree(depth - 1).mul(vtree(depth - 1)),
        _ => vtree(depth - 1).neg(),
    }
}
thread_local!(static IX: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
fn fresh_ix() -> usize {
    IX.with(|c| c.replace(c.get() + 1))
}
fn print<T: Fld>(depth: usize) {
    IX.with(|c| c.set(0));
    let t = vtree::<T>(depth);
    let e: Al<T> = rename(&to_alg(&t), &|r| AlgebraicReference { name: Arc::new(format!("x{}", r.id)), id: r.id });
    let s = e.to_string();
    let mut p = Ps { s: s.as_bytes(), i: 0 };
    let back = p.sum::<T>();
    check_bool(p.peek() == 0, "the printed form has trailing text");
    let env = fresh_env::<T>(2);
    note(|| format!("{t} printed {s:?} reads as {back} under {env:?}"));
    check(t.val(&env).eqt(&back.val(&env)), "the printed form means another expression");
}
fn rename<T: Fld>(e: &Al<T>, f: &dyn Fn(&AlgebraicReference) -> AlgebraicReference) -> Al<T> {
    let mut e = e.clone();
    use powdr_expression::visitors::ExpressionVisitable;
    e.pre_visit_expressions_mut(&mut |e| {
        if let AlgebraicExpression::Reference(r) = e {
            *r = f(r);
        }
    });
    e
}

// ---------------------------------------------------------------- machines
type Bus<T> = (u64, Tr<T>, Vec<Tr<T>>);
struct Mach<T> {
    alg: Vec<Tr<T>>,
    bus: Vec<Bus<T>>,
    der: Vec<(u16, Option<T>, Tr<T>, Tr<T>)>,
}
fn some_machine<T: Fld>() -> Mach<T> {
    let s = |n: &str, i: usize| shape::<T>(n, i);
    let one = |n: &str, v: u16| Tr::V(v).add(c(n));
    let mut m = Mach { alg: vec![one("a", 0), tv(1).mul(tv(2))], bus: vec![], der: vec![] };
    let focus = choose(5);
    match focus {
        0 => m.alg = vec![s("a", choose(5)), one("b", 1).mul(tv(2))],
        1 => m.alg.push(s("a", choose(9))),
        _ => {}
    }
    m.bus.push(match focus {
        2 => (1 + choose(3) as u64 * 5, s("m", 0), vec![s("p", choose(3)), one("q", 1)]),
        _ => (6, lin(&[(1, 2)], c("m")), vec![tv(0), tv(2).mul(tv(1))]),
    });
    m.bus.push((3, lin(&[(1, 0), (-1, 1)], k(0)), vec![s("r", 5)]));
    match (focus, choose(3)) {
        (_, 0) => {}
        (_, 1) => m.der.push((3, Some(T::any("dc")), k(0), k(0))),
        (3, _) => m.der.push((3, None, s("dn", choose(5)), s("dd", 0))),
        (4, _) => {
            m.der.push((3, None, one("dn", 0), s("dd", choose(5))));
            m.der.push((2, Some(T::any("dc")), k(0), k(0)));
        }
        _ => m.der.push((3, None, tv(0).mul(tv(1)), one("dd", 1))),
    }
    m
}
fn aref(i: u64) -> AlgebraicReference {
    AlgebraicReference { name: Arc::new(format!("x{i}")), id: i }
}
fn make<T: Fld>(m: &Mach<T>) -> SymbolicMachine<T> {
    SymbolicMachine {
        constraints: m.alg.iter().map(|t| to_alg(t).into()).collect(),
        bus_interactions: m
            .bus
            .iter()
            .map(|(id, x, a)| SymbolicBusInteraction { id: *id, mult: to_alg(x), args: a.iter().map(to_alg).collect() })
            .collect(),
        derived_columns: m
            .der
            .iter()
            .map(|(x, kst, a, b)| {
                let m = match kst {
                    Some(k) => ComputationMethod::Constant(*k),
                    None => ComputationMethod::QuotientOrZero(to_alg(a), to_alg(b)),
                };
                DerivedVariable::new(aref(*x as u64), m)
            })
            .collect(),
    }
}
/// `m` means the reference machine under env; `id(i)` gives the column of variable i
fn same_machine<T: Fld>(want: &Mach<T>, m: &SymbolicMachine<T>, env: &[T], at: &dyn Fn(u64) -> Option<T>, what: &str) {
    let val = |e: &Al<T>| -> T {
        fn go<T: Fld>(e: &Al<T>, at: &dyn Fn(u64) -> Option<T>) -> T {
            use powdr_expression::{AlgebraicBinaryOperator as Op, AlgebraicUnaryOperator as Un};
            match e {
                AlgebraicExpression::Number(n) => *n,
                AlgebraicExpression::Reference(r) => match at(r.id) {
                    Some(x) => x,
                    None => {
                        check_bool(false, "a column outside the machine is referenced");
                        unreachable!()
                    }
                },
                AlgebraicExpression::BinaryOperation(b) => {
                    let (l, r) = (go(&b.left, at), go(&b.right, at));
                    match b.op {
                        Op::Add => l + r,
                        Op::Sub => l - r,
                        Op::Mul => l * r,
                    }
                }
                AlgebraicExpression::UnaryOperation(u) => match u.op {
                    Un::Minus => -go(&u.expr, at),
                },
            }
        }
        go(e, at)
    };
    note(|| format!("{what}: {m} under {env:?}"));
    check_bool(
        m.constraints.len() == want.alg.len()
            && m.bus_interactions.len() == want.bus.len()
            && m.derived_columns.len() == want.der.len(),
        "a constraint, interaction or derived column is lost or added",
    );
    for (x, t) in m.constraints.iter().zip(&want.alg) {
        check(same_zero(val(&x.expr), t.val(env)), "a constraint changes its solutions");
    }
    for (x, (id, mu, a)) in m.bus_interactions.iter().zip(&want.bus) {
        check_bool(x.id == *id && x.args.len() == a.len(), "a bus interaction changes its bus or arity");
        check(val(&x.mult).eqt(&mu.val(env)), "a multiplicity changes");
        for (p, q) in x.args.iter().zip(a) {
            check(val(p).eqt(&q.val(env)), "a bus argument changes");
        }
    }
    for (x, (_, kst, a, b)) in m.derived_columns.iter().zip(&want.der) {
        match (&x.computation_method, kst) {
            (ComputationMethod::Constant(p), Some(q)) => check(p.eqt(q), "a derived constant changes"),
            (ComputationMethod::QuotientOrZero(p, q), None) => {
                check(val(p).eqt(&a.val(env)), "a derived column's numerator changes");
                check(val(q).eqt(&b.val(env)), "a derived column's denominator changes");
            }
            _ => check_bool(false, "a derived column changes its kind"),
        }
    }
}
fn machine<T: Fld>() {
    let w = some_machine::<T>();
    let env = fresh_env::<T>(4);
    let m = make(&w);
    let at = |id: u64| env.get(id as usize).copied();
    // constraint systems
    let cs = symbolic_machine_to_constraint_system(m.clone());
    let back = constraint_system_to_symbolic_machine(cs.clone());
    same_machine(&w, &back, &env, &at, "round trip");
    check_bool(
        back.derived_columns.iter().zip(&w.der).all(|(d, x)| d.variable.id == x.0 as u64),
        "a derived column is renamed",
    );
    // field conversion: multiply all numbers by a factor
    let f = T::any("f");
    fn scale<T: Fld>(t: &Tr<T>, f: T) -> Tr<T> {
        match t {
            Tr::K(x) => Tr::K(*x * f),
            Tr::V(i) => Tr::V(*i),
            Tr::Add(a, b) => scale(a, f).add(scale(b, f)),
            Tr::Sub(a, b) => scale(a, f).sub(scale(b, f)),
            Tr::Mul(a, b) => scale(a, f).mul(scale(b, f)),
            Tr::Neg(a) => scale(a, f).neg(),
        }
    }
    let conv = convert_machine_field_type(m.clone(), &|x| x * f);
    let ws = Mach {
        alg: w.alg.iter().map(|t| scale(t, f)).collect(),
        bus: w.bus.iter().map(|(i, m, a)| (*i, scale(m, f), a.iter().map(|t| scale(t, f)).collect())).collect(),
        der: w.der.iter().map(|(v, k, a, b)| (*v, k.map(|k| k * f), scale(a, f), scale(b, f))).collect(),
    };
    same_machine(&ws, &conv, &env, &at, "field conversion");
}
/// References are shifted by the offset, names get the suffix, and nothing else changes.
fn globalize<T: Fld>() {
    let mut w = some_machine::<T>();
    w.der.clear();
    // all columns 0..3 occur
    w.alg.push(lin(&[(1, 0), (1, 1), (1, 2)], c("l")));
    let env = fresh_env::<T>(3);
    let m = make(&w);
    let off = pick(&[0u64, 3, 7]);
    let (next, subs, g) = globalize_references(m, off, 5);
    check_bool(next == off + 3 && subs == (off..off + 3).collect::<Vec<_>>(), "wrong column ids are allocated");
    let at = |id: u64| id.checked_sub(off).and_then(|i| env.get(i as usize).copied());
    same_machine(&w, &g, &env, &at, "globalized");
    use powdr_autoprecompiles::powdr::UniqueReferences;
    for r in g.unique_references() {
        check_bool(r.name.ends_with("_5"), "a name has no suffix");
    }
}

// ---------------------------------------------------- indexed systems (C15)
type Rs<T> = Ref<T>;
#[derive(Clone)]
struct Ref<T> {
    alg: Vec<Ge<T>>,
    bus: Vec<BusInteraction<Ge<T>>>,
    der: Vec<DerivedVariable<T, Vr, Ge<T>>>,
}
impl<T: Fld> Ref<T> {
    fn sys(&self) -> Sys<T> {
        ConstraintSystem {
            algebraic_constraints: self.alg.iter().cloned().map(AlgebraicConstraint::assert_zero).collect(),
            bus_interactions: self.bus.clone(),
            derived_variables: self.der.clone(),
        }
    }
}
fn bus<T: Fld>(id: i64, m: Tr<T>, a: Vec<Tr<T>>) -> BusInteraction<Ge<T>> {
    BusInteraction { bus_id: num(T::cst(id)), multiplicity: m.ge(), payload: a.iter().map(|t| t.ge()).collect() }
}
fn start<T: Fld>(n: usize) -> Ref<T> {
    let quot = |v: u16, a: Tr<T>, b: Tr<T>| DerivedVariable::new(Vr(v), ComputationMethod::QuotientOrZero(a.ge(), b.ge()));
    match n {
        0 => Ref {
            alg: vec![lin(&[(1, 0), (2, 1)], c("k0")).ge(), tv(1).mul(tv(2)).add(c("k1")).ge(), tv(3).sub(tv(0)).ge()],
            bus: vec![bus(RANGE, k(1), vec![tv(0).sub(tv(2)), k(1)]), bus(MEM, tv(1), vec![tv(3), tv(0).mul(tv(1))])],
            der: vec![quot(4, tv(0), tv(1).add(c("k2")))],
        },
        1 => Ref {
            alg: vec![tv(0).mul(c("k0")).sub(tv(1)).ge(), tv(2).mul(tv(3)).ge()],
            bus: vec![bus(MEM, k(1), vec![tv(2), tv(4)])],
            der: vec![quot(4, tv(3), tv(0)), DerivedVariable::new(Vr(5), ComputationMethod::Constant(T::any("kd")))],
        },
        _ => Ref {
            alg: vec![tv(0).mul(tv(0)).sub(tv(1).mul(tv(1))).ge()],
            bus: vec![],
            der: vec![],
        },
    }
}
/// identities of constraints, by address
fn addr<T, V>(c: ConstraintRef<'_, T, V>) -> (usize, usize) {
    match c {
        ConstraintRef::AlgebraicConstraint(a) => (0, a.expression as *const _ as usize),
        ConstraintRef::BusInteraction(b) => (1, b as *const _ as usize),
    }
}
fn mentions<T: Fld>(s: &Sys<T>, vs: &[Vr]) -> BTreeSet<(usize, usize)> {
    let mut r = BTreeSet::new();
    for a in &s.algebraic_constraints {
        if refs(&a.expression).iter().any(|x| vs.contains(x)) {
            r.insert((0, &a.expression as *const _ as usize));
        }
    }
    for b in &s.bus_interactions {
        if b.fields().flat_map(|e| refs(e)).any(|x| vs.contains(&x)) {
            r.insert((1, b as *const _ as usize));
        }
    }
    r
}
/// system and reference agree in value
fn agree<T: Fld>(s: &Sys<T>, r: &Ref<T>, env: &[T]) {
    check_bool(
        s.algebraic_constraints.len() == r.alg.len()
            && s.bus_interactions.len() == r.bus.len()
            && s.derived_variables.len() == r.der.len(),
        "a constraint is lost or duplicated",
    );
    let at = |v: &Vr| env[v.0 as usize];
    for (a, b) in s.algebraic_constraints.iter().zip(&r.alg) {
        check(eval(&a.expression, &at).eqt(&eval(b, &at)), "a constraint is not updated correctly");
    }
    for (a, b) in s.bus_interactions.iter().zip(&r.bus) {
        for (x, y) in a.fields().zip(b.fields()) {
            check(eval(x, &at).eqt(&eval(y, &at)), "a bus interaction is not updated correctly");
        }
    }
    for (a, b) in s.derived_variables.iter().zip(&r.der) {
        check_bool(a.variable == b.variable, "a derived variable is renamed");
        match (&a.computation_method, &b.computation_method) {
            (ComputationMethod::Constant(x), ComputationMethod::Constant(y)) => check(x.eqt(y), "a derived constant changes"),
            (ComputationMethod::QuotientOrZero(x, y), ComputationMethod::QuotientOrZero(z, w)) => {
                check(eval(x, &at).eqt(&eval(z, &at)), "a derived variable is not updated correctly");
                check(eval(y, &at).eqt(&eval(w, &at)), "a derived variable is not updated correctly");
            }
            _ => check_bool(false, "a derived variable changes its kind"),
        }
    }
}
fn ref_subst<T: Fld>(r: &mut Ref<T>, x: Vr, e: &Ge<T>) {
    r.alg.iter_mut().for_each(|a| a.substitute_by_unknown(&x, e));
    r.bus.iter_mut().for_each(|b| b.fields_mut().for_each(|f| f.substitute_by_unknown(&x, e)));
    for d in &mut r.der {
        if let ComputationMethod::QuotientOrZero(a, b) = &mut d.computation_method {
            a.substitute_by_unknown(&x, e);
            b.substitute_by_unknown(&x, e);
        }
    }
}
fn some_expr<T: Fld>(n: &str, i: usize) -> Ge<T> {
    match i {
        0 => num(T::any(n)),
        1 => tv(2).mul(c(n)).ge(),
        2 => tv(3).add(tv(2)).ge(),
        _ => tv(2).mul(tv(3)).ge(),
    }
}
fn extra<T: Fld>(n: &str) -> (Ge<T>, BusInteraction<Ge<T>>) {
    (tv(1).sub(tv(2).mul(c(n))).ge(), bus(MEM, k(1), vec![tv(0), tv(2).add(c(n))]))
}
fn index_invariant<T: Fld>(s: &IndexedConstraintSystem<T, Vr>) {
    let sys = s.system();
    let vars: BTreeSet<Vr> = s.variables().copied().collect();
    let all: BTreeSet<Vr> = crate::c_opt_refs(sys);
    check_bool(all.is_subset(&vars), "a variable that occurs is not listed");
    for x in 0..6u16 {
        let got: Vec<(usize, usize)> = s.constraints_referencing_variables(&[Vr(x)]).map(addr).collect();
        let set: BTreeSet<_> = got.iter().copied().collect();
        check_bool(set.len() == got.len(), "a constraint is reported twice");
        check_bool(mentions(sys, &[Vr(x)]).is_subset(&set), "a constraint that mentions a variable is not found");
    }
    let two = [Vr(0), Vr(3)];
    let got: Vec<_> = s.constraints_referencing_variables(&two).map(addr).collect();
    let set: BTreeSet<_> = got.iter().copied().collect();
    check_bool(set.len() == got.len(), "a constraint is reported twice");
    check_bool(mentions(sys, &two).is_subset(&set), "a constraint that mentions a variable is not found");
}
fn indexed<T: Fld>(len: usize) {
    let mut r: Rs<T> = start(choose(3));
    let mut s = IndexedConstraintSystem::from(r.sys());
    let env = fresh_env::<T>(6);
    let mut log = vec![];
    for i in 0..len {
        let op = choose(7);
        match op {
            0 => {
                let x = Vr(choose(2) as u16);
                let e = some_expr::<T>(&format!("s{i}"), choose(4));
                log.push(format!("{x} := {e}"));
                s.substitute_by_unknown(&x, &e);
                ref_subst(&mut r, x, &e);
            }
            1 => {
                let x = Vr(pick(&[0u16, 2]));
                let e = T::any(&format!("n{i}"));
                log.push(format!("{x} := {e}"));
                s.substitute_by_known(&x, &e);
                ref_subst(&mut r, x, &num(e));
            }
            2 => {
                let (a, b) = extra::<T>(&format!("e{i}"));
                log.push("extend".into());
                let x = Ref { alg: vec![a], bus: vec![b], der: vec![DerivedVariable::new(Vr(5), ComputationMethod::QuotientOrZero(tv(2).ge(), tv(0).ge()))] };
                s.extend(x.sys());
                r.alg.extend(x.alg);
                r.bus.extend(x.bus);
                r.der.extend(x.der);
            }
            3 => {
                let (a, b) = extra::<T>(&format!("e{i}"));
                log.push("add".into());
                s.add_algebraic_constraints([AlgebraicConstraint::assert_zero(a.clone())]);
                s.add_bus_interactions([b.clone()]);
                r.alg.push(a);
                r.bus.push(b);
            }
            4 => {
                let d = choose(2);
                log.push(format!("drop constraint {d}"));
                let mut n = 0;
                s.retain_algebraic_constraints(|_| {
                    n += 1;
                    n - 1 != d
                });
                if d < r.alg.len() {
                    r.alg.remove(d);
                }
            }
            5 => {
                log.push("drop bus 0".into());
                let mut n = 0;
                s.retain_bus_interactions(|_| {
                    n += 1;
                    n != 1
                });
                if !r.bus.is_empty() {
                    r.bus.remove(0);
                }
            }
            _ => {
                log.push("drop derived 0".into());
                let mut n = 0;
                s.retain_derived_variables(|_| {
                    n += 1;
                    n != 1
                });
                if !r.der.is_empty() {
                    r.der.remove(0);
                }
            }
        }
        note(|| format!("after {log:?}: {s}"));
        index_invariant(&s);
    }
    note(|| format!("after {log:?}: {s}; env {env:?}"));
    agree(s.system(), &r, &env);
}
/// apply_substitutions is sequential substitution
fn apply<T: Fld>() {
    let mut r: Rs<T> = start(choose(3));
    let mut subs = vec![];
    let order = if choose_bool() { [0u16, 1] } else { [1, 0] };
    for x in order {
        let e = if choose_bool() { some_expr::<T>(&format!("s{x}"), choose(3)) } else { tv(1 - x).add(c(&format!("s{x}"))).ge() };
        subs.push((Vr(x), e));
    }
    let env = fresh_env::<T>(6);
    let out = apply_substitutions(r.sys(), subs.clone());
    let ex = apply_substitutions_to_expressions(r.alg.clone(), subs.clone());
    for (x, e) in &subs {
        ref_subst(&mut r, *x, e);
    }
    note(|| format!("{subs:?} env {env:?}"));
    agree(&out, &r, &env);
    check_bool(ex.len() == r.alg.len(), "an expression is lost");
    let at = |v: &Vr| env[v.0 as usize];
    for (a, b) in ex.iter().zip(&r.alg) {
        check(eval(a, &at).eqt(&eval(b, &at)), "an expression is not substituted correctly");
    }
}
/// Every affected constraint is popped, none twice.
fn queue<T: Fld>(len: usize) {
    let mut r: Rs<T> = start(choose(2));
    let mut q = IndexedConstraintSystemWithQueue::<T, Vr>::from(r.sys());
    let env = fresh_env::<T>(6);
    // pending: positions (kind, index)
    let mut pending: BTreeSet<(usize, usize)> =
        (0..r.alg.len()).map(|i| (0, i)).chain((0..r.bus.len()).map(|i| (1, i))).collect();
    let mut log = vec![];
    fn pos<T: Fld>(s: &Sys<T>, a: (usize, usize)) -> (usize, usize) {
        if a.0 == 0 {
            (0, s.algebraic_constraints.iter().position(|c| &c.expression as *const _ as usize == a.1).unwrap())
        } else {
            (1, s.bus_interactions.iter().position(|c| c as *const _ as usize == a.1).unwrap())
        }
    }
    fn drain<T: Fld>(q: &mut IndexedConstraintSystemWithQueue<T, Vr>, n: usize, must: &mut BTreeSet<(usize, usize)>, log: &mut Vec<String>) {
        let mut seen = BTreeSet::new();
        for _ in 0..n {
            let a = match q.pop_front() {
                None => break,
                Some(c) => addr(c),
            };
            let p = pos(q.system().system(), a);
            log.push(format!("pop {p:?}"));
            check_bool(seen.insert(p), "a constraint is queued twice");
            must.remove(&p);
        }
    }
    for i in 0..len {
        match choose(6) {
            0 => {
                let n = 1 + choose(2);
                drain(&mut q, n, &mut pending, &mut log);
            }
            1 => {
                let x = Vr(choose(4) as u16);
                log.push(format!("updated {x}"));
                q.variable_updated(&x);
                let s = q.system().system();
                pending.extend(mentions(s, &[x]).into_iter().map(|a| pos(s, a)));
            }
            2 => {
                let x = Vr(choose(2) as u16);
                let e = some_expr::<T>(&format!("s{i}"), choose(3));
                log.push(format!("{x} := {e}"));
                let s = q.system().system();
                pending.extend(mentions(s, &[x]).into_iter().map(|a| pos(s, a)));
                q.substitute_by_unknown(&x, &e);
                ref_subst(&mut r, x, &e);
            }
            3 => {
                let (a, b) = extra::<T>(&format!("e{i}"));
                log.push("add".into());
                pending.insert((0, r.alg.len()));
                q.add_algebraic_constraints([AlgebraicConstraint::assert_zero(a.clone())]);
                r.alg.push(a);
                if choose_bool() {
                    pending.insert((1, r.bus.len()));
                    q.add_bus_interactions([b.clone()]);
                    r.bus.push(b);
                }
            }
            4 => {
                log.push("drain".into());
                drain(&mut q, 100, &mut pending, &mut log);
                check_bool(pending.is_empty(), "an affected constraint is never handled");
            }
            _ => {
                let d = choose(2);
                log.push(format!("drop constraint {d}"));
                let mut n = 0;
                q.retain_algebraic_constraints(|_| {
                    n += 1;
                    n - 1 != d
                });
                if d < r.alg.len() {
                    r.alg.remove(d);
                    pending = pending
                        .into_iter()
                        .filter(|p| *p != (0, d))
                        .map(|p| if p.0 == 0 && p.1 > d { (0, p.1 - 1) } else { p })
                        .collect();
                }
            }
        }
    }
    note(|| format!("after {log:?}: {q}"));
    drain(&mut q, 100, &mut pending, &mut log);
    check_bool(q.pop_front().is_none(), "the queue does not become empty");
    note(|| format!("after {log:?}: {q} still pending {pending:?}"));
    check_bool(pending.is_empty(), "an affected constraint is never handled");
    agree(q.system().system(), &r, &env);
}
/// Coefficients decide which variables occur; reachability and splitting follow.
fn graph_sys<T: Fld>(n: usize) -> Ref<T> {
    // each constraint links two variables, a coefficient may vanish
    let link = |i: usize, a: u16, b: u16| Tr::V(a).add(Tr::V(b).mul(Tr::K(T::any(&format!("e{i}")))));
    let pairs: &[(u16, u16)] = match n {
        0 => &[(0, 1), (1, 2), (3, 4)],
        1 => &[(1, 0), (2, 1), (3, 2), (4, 3)],
        2 => &[(0, 2), (1, 2), (3, 2), (4, 1)],
        _ => &[(0, 1), (2, 3), (4, 0)],
    };
    let mut r = Ref { alg: vec![], bus: vec![], der: vec![] };
    for (i, (a, b)) in pairs.iter().enumerate() {
        if i % 2 == 0 {
            r.alg.push(link(i, *a, *b).ge());
        } else {
            r.bus.push(bus(RANGE, k(1), vec![link(i, *a, *b), k(1)]));
        }
    }
    r.alg.push(Tr::V(4).mul(Tr::V(4)).sub(k(1)).ge());
    r
}
fn edges<T: Fld>(s: &Sys<T>) -> Vec<BTreeSet<Vr>> {
    s.algebraic_constraints
        .iter()
        .map(|c| refs(&c.expression).into_iter().collect())
        .chain(s.bus_interactions.iter().map(|b| b.fields().flat_map(|e| refs(e)).collect()))
        .collect()
}
fn reach<T: Fld>() {
    let r = graph_sys::<T>(choose(4));
    let sys = r.sys();
    let s = IndexedConstraintSystem::from(sys.clone());
    let from = Vr(choose(5) as u16);
    let blocked: Vec<Vr> = match choose(3) {
        0 => vec![],
        1 => vec![Vr(1)],
        _ => vec![Vr(2), Vr(0)],
    };
    let got: BTreeSet<Vr> = if blocked.is_empty() {
        reachable_variables([from], &s).into_iter().collect()
    } else {
        reachable_variables_except_blocked([from], blocked.clone(), &s).into_iter().collect()
    };
    let mut want = BTreeSet::from([from]);
    loop {
        let n = want.len();
        for e in edges(&sys) {
            if e.iter().any(|x| want.contains(x) && !blocked.contains(x)) {
                want.extend(e);
            }
        }
        if want.len() == n {
            break;
        }
    }
    note(|| format!("{s} from {from} blocked {blocked:?}: {got:?}, expected {want:?}"));
    check_bool(got == want, "the set of reachable variables is wrong");
}
fn split<T: Fld>() {
    let r = graph_sys::<T>(choose(4));
    let parts = split_system(IndexedConstraintSystem::from(r.sys()));
    let env = fresh_env::<T>(5);
    let at = |v: &Vr| env[v.0 as usize];
    note(|| format!("{} -> {} parts", r.sys(), parts.len()));
    let vars: Vec<BTreeSet<Vr>> = parts.iter().map(crate::c_opt_refs).collect();
    for i in 0..vars.len() {
        for j in 0..i {
            check_bool(vars[i].is_disjoint(&vars[j]), "two parts share a variable");
        }
    }
    let sat = |s: &Sys<T>| {
        alg_sat(&s.algebraic_constraints, &at).and(B::all(s.bus_interactions.iter().map(|b| crate::toybus::bus_ok(&eval_bus(b, &at)))))
    };
    check(B::all(parts.iter().map(sat)).iff(sat(&r.sys())), "the parts together mean another system");
}

const F14: &[&str] = &["algebraic_to_grouped_expression", "grouped_expression_to_algebraic", "SymbolicConstraint::from", "RowEvaluator", "MappingRowEvaluator", "WitnessEvaluator",
    "make_refs_zero", "make_bool", "AlgebraicExpression::degree", "symbolic_machine_to_constraint_system", "constraint_system_to_symbolic_machine", "convert_machine_field_type", "globalize_references", "AlgebraicExpression Display"];
const F15: &[&str] = &["IndexedConstraintSystem::*", "IndexedConstraintSystemWithQueue::*", "apply_substitutions", "apply_substitutions_to_expressions", "reachable_variables(_except_blocked)", "split_system"];
pub fn jobs(v: &mut Vec<Job>) {
    v.push(Job::new("C14", "C14.trees.1", || convert::<S31n>(tree("t", 1))).functions(F14).bounds("all expression trees of depth 1 over two columns and any constants, all values"));
    v.push(Job::new("C14", "C14.trees.2", || convert::<S13>(tree("t", 2))).functions(F14).cost(9).split(&[7]).bounds("all expression trees of depth 2"));
    v.push(Job::new("C14", "C14.shapes", || convert::<S31n>(shape("t", choose(9)))).functions(F14).cost(3).bounds("linear, quadratic and cubic shapes with symbolic coefficients"));
    v.push(Job::new("C14", "C14.products", || convert::<S7>(shape("t", choose(6)).mul(shape("u", choose(5))).sub(Tr::K(TP::any("k")).mul(shape("w", choose(2)))))).functions(F14).cost(8).split(&[6]).thorough().bounds("differences of products of the shapes, modulo 7"));
    v.push(Job::new("C14", "C14.print.2", || print::<S31n>(2)).functions(F14).bounds("printed form of all trees of depth 2 over a column and any constants"));
    v.push(Job::new("C14", "C14.machine", machine::<S13>).functions(F14).cost(6).split(&[5]).bounds("machines with two constraints, two interactions, one derived column; symbolic coefficients"));
    v.push(Job::new("C14", "C14.globalize", globalize::<S13>).functions(F14).cost(4).split(&[5]).bounds("as above, offsets 0, 3 and 7"));
    v.push(Job::new("C15", "C15.indexed.2", || indexed::<S7>(2)).functions(F15).cost(4).split(&[3, 7]).bounds("2 operations on 3 start systems, all coefficients and values"));
    v.push(Job::new("C15", "C15.indexed.3", || indexed::<S7>(3)).functions(F15).cost(9).split(&[3, 7]).thorough().bounds("3 operations on 3 start systems"));
    v.push(Job::new("C15", "C15.apply", apply::<S7>).functions(F15).cost(3).split(&[3]).bounds("two substitutions in both orders"));
    v.push(Job::new("C15", "C15.queue.2", || queue::<S7>(2)).functions(F15).cost(3).split(&[2]).bounds("2 operations on 2 start systems"));
    v.push(Job::new("C15", "C15.queue.3", || queue::<S7>(3)).functions(F15).cost(8).split(&[2, 6]).bounds("3 operations on 2 start systems"));
    v.push(Job::new("C15", "C15.queue.4", || queue::<S7>(4)).functions(F15).cost(9).split(&[2, 6, 6]).thorough().bounds("4 operations on 2 start systems"));
    v.push(Job::new("C15", "C15.reach", reach::<S7>).functions(F15).cost(2).bounds("4 systems of 5 variables with vanishing coefficients, any start, 3 blocking sets"));
    v.push(Job::new("C15", "C15.split", split::<S7>).functions(F15).cost(3).bounds("4 systems of 5 variables with vanishing coefficients"));
}
type TP = S7;
