//! Constraint system templates with symbolic constants, over the toy buses.
use crate::c_range::allows;
use crate::field::*;
use crate::sysu::*;
use crate::toybus::*;
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, BusInteraction, ConstraintSystem};
use powdr_constraint_solver::range_constraint::RangeConstraint as RC;
use std::fmt::Write;
use symcore::*;

#[derive(Clone)]
pub struct Spec<T: Fld> {
    pub nv: usize,
    pub alg: Vec<Tr<T>>,
    pub bus: Vec<(i64, Tr<T>, Vec<Tr<T>>)>,
    pub ranges: Vec<(u16, RC<T>)>,
}
impl<T: Fld> Spec<T> {
    pub fn sys(&self) -> Sys<T> {
        ConstraintSystem {
            algebraic_constraints: self.alg.iter().map(|t| AlgebraicConstraint::assert_zero(t.ge())).collect(),
            bus_interactions: self.bus.iter().map(bi).collect(),
            derived_variables: vec![],
        }
    }
    /// the environment satisfies the original system
    pub fn sat(&self, env: &[T]) -> B {
        B::all(
            self.alg
                .iter()
                .map(|t| t.val(env).zt())
                .chain(self.bus.iter().map(|b| bus_ok(&bval(b, env))))
                .chain(self.ranges.iter().map(|(v, r)| allows(r, env[*v as usize]))),
        )
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for t in &self.alg {
            write!(s, "{t} = 0; ").unwrap();
        }
        for (id, m, a) in &self.bus {
            write!(s, "bus {id} mult {m} [{}]; ", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")).unwrap();
        }
        for (v, r) in &self.ranges {
            write!(s, "{} in {r}; ", Vr(*v)).unwrap();
        }
        s
    }
}
pub fn bi<T: Fld>((id, m, a): &(i64, Tr<T>, Vec<Tr<T>>)) -> BusInteraction<Ge<T>> {
    BusInteraction {
        bus_id: num(T::cst(*id)),
        multiplicity: m.ge(),
        payload: a.iter().map(|x| x.ge()).collect(),
    }
}
pub fn bval<T: Fld>((id, m, a): &(i64, Tr<T>, Vec<Tr<T>>), env: &[T]) -> Bi<T> {
    Bi {
        id: T::cst(*id),
        mult: m.val(env),
        args: a.iter().map(|x| x.val(env)).collect(),
    }
}
pub fn k<T: Fld>(n: i64) -> Tr<T> {
    Tr::K(T::cst(n))
}
pub fn c<T: Fld>(n: &str) -> Tr<T> {
    Tr::K(T::any(n))
}
pub fn v<T>(i: u16) -> Tr<T> {
    Tr::V(i)
}
/// x * (x - 1)
pub fn boolean<T: Fld>(x: Tr<T>) -> Tr<T> {
    x.clone().mul(x.sub(k(1)))
}
/// sum of coeff * var, plus constant
pub fn lin<T: Fld>(parts: &[(i64, u16)], konst: Tr<T>) -> Tr<T> {
    let mut t = konst;
    for (co, i) in parts {
        t = t.add(if *co == 1 { v(*i) } else { v(*i).mul(k(*co)) });
    }
    t
}
pub fn range<T: Fld>(x: Tr<T>, bits: i64) -> (i64, Tr<T>, Vec<Tr<T>>) {
    (RANGE, k(1), vec![x, k(bits)])
}
/// An interval [0, m] with symbolic m below `bound`.
pub fn upto<T: Fld>(i: u16, bound: u64) -> (u16, RC<T>) {
    (i, RC::from_range(T::cst(0), T::any_below(&format!("max_{}", Vr(i)), bound)))
}
pub fn msk<T: Fld>(i: u16, m: i64) -> (u16, RC<T>) {
    (i, RC::from_mask(m as u64))
}
pub fn anym<T: Fld>(i: u16) -> (u16, RC<T>) {
    (i, RC::from_mask(crate::c_range::int::<T>(&format!("mask_{}", Vr(i)))))
}
pub fn anyr<T: Fld>(i: u16) -> (u16, RC<T>) {
    (i, RC::from_range(T::any(&format!("min_{}", Vr(i))), T::any(&format!("max_{}", Vr(i)))))
}

pub const NT: usize = 35;
pub fn template<T: Fld>(n: usize) -> Spec<T> {
    let mut s = Spec { nv: 4, alg: vec![], bus: vec![], ranges: vec![] };
    match n {
        // affine, arbitrary ranges
        0 => {
            s.nv = 2;
            s.alg = vec![v(0).mul(c("k1")).add(v(1)).add(c("k0"))];
            s.ranges = vec![anyr(0), anyr(1)];
        }
        // digit decompositions
        1 => {
            s.alg = vec![lin(&[(1, 0), (4, 1), (-1, 2), (-4, 3)], c("k0"))];
            s.ranges = (0..4).map(|i| msk(i, 3)).collect();
        }
        2 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (4, 1), (16, 2)], c("k0"))];
            s.ranges = vec![upto(0, 5), upto(1, 5), msk(2, 1)];
        }
        3 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (-4, 1), (2, 2)], c("k0"))];
            s.ranges = vec![upto(0, 4), upto(1, 6), upto(2, 3)];
        }
        // booleans
        4 => {
            s.nv = 3;
            s.alg = vec![boolean(v(0)), boolean(v(1)), lin(&[(1, 0), (1, 1), (1, 2)], c("k0"))];
        }
        5 => {
            s.nv = 2;
            s.alg = vec![v(0).add(c("k0")).mul(v(0).add(c("k1"))), lin(&[(1, 0), (1, 1)], c("k2"))];
        }
        6 => {
            s.nv = 2;
            let x = || lin(&[(1, 0), (1, 1)], k(0));
            s.alg = vec![x().mul(x().add(c("k0")))];
            s.ranges = vec![upto(0, 4), upto(1, 4)];
        }
        7 => {
            s.nv = 2;
            s.alg = vec![lin(&[(2, 0), (2, 1)], k(0)).mul(lin(&[(1, 0), (1, 1)], c("k0"))), v(1).add(c("k1"))];
        }
        8 => {
            s.nv = 2;
            s.alg = vec![v(0).mul(v(1)).add(c("k0")), lin(&[(1, 0), (-1, 1)], c("k1"))];
        }
        // is-zero gadget
        9 => {
            s.nv = 3;
            s.alg = vec![v(0).mul(v(1)).add(v(2)).sub(k(1)), v(2).mul(v(0)), boolean(v(2)), v(0).add(c("k0"))];
        }
        10 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0)], c("k0")), lin(&[(1, 1)], c("k1"))];
            s.bus = vec![(XOR, k(1), vec![v(0), v(1), v(2)])];
        }
        11 => {
            s.nv = 2;
            s.alg = vec![lin(&[(1, 0), (4, 1)], c("k0"))];
            s.bus = vec![range(v(0), 2), range(v(1), 2)];
        }
        12 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (-1, 1)], k(0)), lin(&[(1, 1), (-1, 2)], k(0)), boolean(v(2)), v(0).mul(v(1)).add(v(2)).add(c("k0"))];
        }
        13 => {
            s.nv = 4;
            s.alg = vec![v(0).mul(v(1)).add(v(2)).add(c("k0")), v(0).mul(v(1)).add(v(3)).add(c("k1"))];
            s.ranges = vec![upto(2, 3)];
        }
        14 => {
            s.nv = 2;
            s.alg = vec![boolean(v(0)), v(0).sub(k(1)).mul(v(1)), v(0).mul(v(1).add(c("k0")))];
        }
        15 => {
            s.nv = 1;
            s.alg = vec![v(0).add(c("k0")), v(0).mul(c("k2")).add(c("k1"))];
        }
        16 => {
            s.nv = 3;
            s.alg = vec![boolean(v(0)), v(2).add(c("k0"))];
            s.bus = vec![range(v(0).mul(v(1)).add(v(2)), 2)];
        }
        // flags selecting a value
        17 => {
            s.nv = 4;
            s.alg = vec![
                boolean(v(0)), boolean(v(1)), lin(&[(1, 0), (1, 1)], k(-1)),
                v(2).sub(v(0).mul(c("k0"))).sub(v(1).mul(c("k1"))), v(3).sub(v(2)).add(c("k2")),
            ];
        }
        18 => {
            s.nv = 3;
            s.alg = vec![v(0).mul(v(0).sub(k(1))).mul(v(0).sub(k(2))), lin(&[(1, 0), (3, 1)], c("k0")), v(1).mul(v(2))];
            s.ranges = vec![upto(1, 3)];
        }
        // bus with variable multiplicity
        19 => {
            s.nv = 3;
            s.alg = vec![v(1).add(c("k0")), v(2).add(c("k1"))];
            s.bus = vec![(RANGE, v(2), vec![lin(&[(1, 0), (1, 1)], k(0)), k(2)])];
        }
        20 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (2, 1), (-1, 2)], k(0))];
            s.bus = vec![range(v(0), 1), range(v(1), 1), (XOR, k(1), vec![v(2), c("k0"), v(0)])];
        }
        21 => {
            s.nv = 2;
            s.alg = vec![v(0).mul(v(1).add(c("k0"))), v(0).mul(c("k1")).sub(k(1))];
        }
        22 => {
            s.nv = 3;
            s.alg = vec![v(0).sub(v(1)).mul(v(0).sub(v(2))), v(1).add(c("k0")), v(2).add(c("k1"))];
        }
        23 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (1, 1), (1, 2)], c("k0"))];
            s.ranges = vec![msk(0, 1), msk(1, 1), msk(2, 1)];
        }
        24 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (2, 1), (4, 2)], c("k0"))];
            s.ranges = vec![(0, RC::from_range(T::cst(-2), T::cst(1))), upto(1, 3), msk(2, 1)];
        }
        25 => {
            s.nv = 3;
            s.alg = vec![lin(&[(1, 0), (1, 1)], c("k0")).mul(lin(&[(1, 2)], c("k1"))), v(0).sub(v(2)), v(1).mul(v(2))];
            s.bus = vec![range(v(2), 1)];
        }
        // masks with gaps
        26 => {
            s.nv = 2;
            s.alg = vec![lin(&[(1, 0), (4, 1)], c("k0"))];
            s.ranges = vec![anym(0), msk(1, 3)];
        }
        27 => {
            s.nv = 2;
            s.alg = vec![lin(&[(1, 0), (-2, 1)], c("k0"))];
            s.ranges = vec![anym(0), anym(1)];
        }
        28 => {
            s.nv = 3;
            s.alg = vec![lin(&[(2, 0), (-2, 1), (8, 2)], c("k0"))];
            s.ranges = vec![msk(0, 1), msk(1, 1), msk(2, 1)];
        }
        // several products shared between constraints and buses
        29 => {
            s.nv = 4;
            s.alg = vec![v(0).mul(v(1)).add(v(2)).add(c("k0")), boolean(v(0))];
            s.bus = vec![range(v(0).mul(v(1)).sub(v(3)), 1), range(v(2), 2)];
        }
        // the same boolean extracted twice, with different scalings
        30 => {
            s.nv = 3;
            let x = || lin(&[(1, 0), (1, 1)], k(0));
            s.alg = vec![
                x().mul(x().add(c("k0"))),
                x().mul(k(2)).sub(v(2)).mul(x().add(c("k1"))),
                x().mul(x().mul(k(3)).add(c("k2"))),
            ];
            s.ranges = vec![msk(1, 1)];
        }
        // square of an affine expression
        31 => {
            s.nv = 2;
            let x = || lin(&[(1, 0), (2, 1)], c("k0"));
            s.alg = vec![x().mul(x()), v(0).mul(v(1)).add(c("k1"))];
        }
        32 => {
            s.nv = 3;
            s.alg = vec![v(0).add(v(1)).sub(c("k0")), v(0).mul(v(2)).sub(c("k1"))];
            s.bus = vec![(XOR, k(1), vec![v(0), v(1), v(2)])];
        }
        // sums that just reach the modulus
        33 => {
            s.nv = 2;
            s.alg = vec![lin(&[(1, 0), (4, 1)], c("k0"))];
            s.ranges = vec![upto(0, 8), upto(1, 8)];
        }
        34 => {
            s.nv = 2;
            s.alg = vec![lin(&[(1, 0), (-5, 1)], c("k0"))];
            s.ranges = vec![(0, RC::from_range(T::cst(-1), T::any_below("max_a", 6))), upto(1, 7)];
        }
        _ => unreachable!(),
    }
    s
}
