//! Shared helpers: variables, environments, expression trees with a reference
//! evaluation, constraint systems and their satisfaction as a formula.
use crate::field::*;
use powdr_constraint_solver::constraint_system::{
    AlgebraicConstraint, BusInteraction, ComputationMethod, ConstraintSystem,
};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use serde::Serialize;
use std::fmt;
use symcore::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize)]
pub struct Vr(pub u16);
impl fmt::Display for Vr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0 < 26 {
            write!(f, "{}", (b'a' + self.0 as u8) as char)
        } else {
            write!(f, "v{}", self.0)
        }
    }
}
pub type Ge<T> = GroupedExpression<T, Vr>;
pub type Sys<T> = ConstraintSystem<T, Vr>;

pub fn var<T: Fld>(i: u16) -> Ge<T> {
    GroupedExpression::from_unknown_variable(Vr(i))
}
pub fn num<T: Fld>(k: T) -> Ge<T> {
    GroupedExpression::from_number(k)
}

/// Value of an expression read through its public components.
pub fn eval<T: Fld, V: Ord + Clone + Eq>(e: &GroupedExpression<T, V>, env: &dyn Fn(&V) -> T) -> T {
    let mut r = *e.constant_offset();
    for (v, c) in e.linear_components() {
        r = r + *c * env(v);
    }
    for (l, q) in e.quadratic_components() {
        r = r + eval(l, env) * eval(q, env);
    }
    r
}
pub fn refs<T: Fld, V: Ord + Clone + Eq>(e: &GroupedExpression<T, V>) -> Vec<V> {
    let mut v: Vec<V> = e.referenced_unknown_variables().cloned().collect();
    v.sort();
    v.dedup();
    v
}

/// Reference expression trees.
#[derive(Clone, Debug)]
pub enum Tr<T> {
    V(u16),
    K(T),
    Add(Box<Tr<T>>, Box<Tr<T>>),
    Sub(Box<Tr<T>>, Box<Tr<T>>),
    Mul(Box<Tr<T>>, Box<Tr<T>>),
    Neg(Box<Tr<T>>),
}
impl<T: Fld> Tr<T> {
    pub fn ge(&self) -> Ge<T> {
        match self {
            Tr::V(i) => var(*i),
            Tr::K(k) => num(*k),
            Tr::Add(a, b) => a.ge() + b.ge(),
            Tr::Sub(a, b) => a.ge() - b.ge(),
            Tr::Mul(a, b) => match (&**a, &**b) {
                (Tr::K(k), o) | (o, Tr::K(k)) => o.ge() * k,
                _ => a.ge() * b.ge(),
            },
            Tr::Neg(a) => -a.ge(),
        }
    }
    pub fn val(&self, env: &[T]) -> T {
        match self {
            Tr::V(i) => env[*i as usize],
            Tr::K(k) => *k,
            Tr::Add(a, b) => a.val(env) + b.val(env),
            Tr::Sub(a, b) => a.val(env) - b.val(env),
            Tr::Mul(a, b) => a.val(env) * b.val(env),
            Tr::Neg(a) => -a.val(env),
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Tr::V(_) => 1,
            Tr::K(_) => 0,
            Tr::Add(a, b) | Tr::Sub(a, b) => a.degree().max(b.degree()),
            Tr::Mul(a, b) => a.degree() + b.degree(),
            Tr::Neg(a) => a.degree(),
        }
    }
    pub fn add(self, o: Tr<T>) -> Tr<T> {
        Tr::Add(self.into(), o.into())
    }
    pub fn sub(self, o: Tr<T>) -> Tr<T> {
        Tr::Sub(self.into(), o.into())
    }
    pub fn mul(self, o: Tr<T>) -> Tr<T> {
        Tr::Mul(self.into(), o.into())
    }
    pub fn neg(self) -> Tr<T> {
        Tr::Neg(self.into())
    }
}
impl<T: Fld> fmt::Display for Tr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Tr::V(i) => write!(f, "{}", Vr(*i)),
            Tr::K(k) => write!(f, "{k}"),
            Tr::Add(a, b) => write!(f, "({a} + {b})"),
            Tr::Sub(a, b) => write!(f, "({a} - {b})"),
            Tr::Mul(a, b) => write!(f, "({a} * {b})"),
            Tr::Neg(a) => write!(f, "-{a}"),
        }
    }
}

/// All constraints evaluate to zero (buses not included).
pub fn alg_sat<T: Fld, V: Ord + Clone + Eq>(
    cs: &[AlgebraicConstraint<GroupedExpression<T, V>>],
    env: &dyn Fn(&V) -> T,
) -> B {
    B::all(cs.iter().map(|c| eval(&c.expression, env).zt()))
}
/// Evaluated bus interaction.
#[derive(Clone, Debug)]
pub struct Bi<T> {
    pub id: T,
    pub mult: T,
    pub args: Vec<T>,
}
pub fn eval_bus<T: Fld, V: Ord + Clone + Eq>(
    b: &BusInteraction<GroupedExpression<T, V>>,
    env: &dyn Fn(&V) -> T,
) -> Bi<T> {
    Bi {
        id: eval(&b.bus_id, env),
        mult: eval(&b.multiplicity, env),
        args: b.payload.iter().map(|e| eval(e, env)).collect(),
    }
}
/// Value of a derived variable.
pub fn eval_method<T: Fld, V: Ord + Clone + Eq>(
    m: &ComputationMethod<T, GroupedExpression<T, V>>,
    env: &dyn Fn(&V) -> T,
) -> T {
    match m {
        ComputationMethod::Constant(c) => *c,
        ComputationMethod::QuotientOrZero(a, b) => {
            let (a, b) = (eval(a, env), eval(b, env));
            a * b.inv0()
        }
    }
}
/// A fresh value for every variable.
pub fn fresh_env<T: Fld>(n: usize) -> Vec<T> {
    (0..n).map(|i| T::any(&format!("val_{}", Vr(i as u16)))).collect()
}
