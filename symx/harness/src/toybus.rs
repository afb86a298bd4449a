//! A small bus interaction handler with a crisp reference semantics, used to
//! drive powdr's generic code: a range bus, an xor table and a memory-like bus.
use crate::c_range::allows;
use crate::field::*;
use crate::sysu::Bi;
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::memory_optimizer::{
    MemoryBusInteraction, MemoryBusInteractionConversionError, MemoryOp,
};
use powdr_autoprecompiles::range_constraint_optimizer::{
    MakeRangeConstraintsError, RangeConstraintHandler, RangeConstraints,
};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use std::fmt::Display;
use std::hash::Hash;
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler};
use powdr_constraint_solver::range_constraint::RangeConstraint as RC;
use powdr_number::FieldElement;
use std::marker::PhantomData;
use symcore::*;

/// (x, bits): x < 2^bits, bits in 0..=3
pub const RANGE: i64 = 3;
/// (x, y, z): 2-bit x, y and z = x ^ y
pub const XOR: i64 = 6;
/// stateful, unconstrained
pub const MEM: i64 = 1;
/// stateful execution bridge
#[allow(dead_code)]
pub const EXEC: i64 = 0;
/// program counter lookup (unused by the templates)
#[allow(dead_code)]
pub const PCL: i64 = 2;

#[derive(Clone, Copy)]
pub struct ToyBus<T>(PhantomData<T>);
impl<T> ToyBus<T> {
    pub fn new() -> Self {
        ToyBus(PhantomData)
    }
}
/// Reference semantics: is the message allowed? (zero multiplicity: always)
pub fn bus_ok<T: Fld>(b: &Bi<T>) -> B {
    let r = b.id.eqt(&T::cst(RANGE));
    let x = b.id.eqt(&T::cst(XOR));
    let ok_r = if b.args.len() == 2 {
        let (v, n) = (b.args[0].bv(), b.args[1].bv());
        B::any((0..=3u16).map(|k| n.equals(Bv::c(k as u128)).and(v.lt(Bv::c(1 << k)))))
    } else {
        B::FALSE
    };
    let ok_x = if b.args.len() == 3 {
        let (p, q, z) = (b.args[0].bv(), b.args[1].bv(), b.args[2].bv());
        B::all([p.lt(Bv::c(4)), q.lt(Bv::c(4)), z.equals(p.xor(q))])
    } else {
        B::FALSE
    };
    b.mult.zt().or(r.implies(ok_r).and(x.implies(ok_x)))
}
impl<T: Fld> BusInteractionHandler<T> for ToyBus<T> {
    fn handle_bus_interaction(&self, b: BusInteraction<RC<T>>) -> BusInteraction<RC<T>> {
        let Some(id) = b.bus_id.try_to_single_value() else { return b };
        let m0 = b.multiplicity.allows_value(T::cst(0));
        if m0 {
            return b;
        }
        let payload = if id == T::cst(RANGE) && b.payload.len() == 2 {
            let bits = b.payload[1].conjunction(&RC::from_range(T::cst(0), T::cst(3)));
            let max = match bits.try_to_single_value() {
                Some(n) => {
                    let mut m = 7i64;
                    for k in 0..3i64 {
                        if n == T::cst(k) {
                            m = (1 << k) - 1;
                        }
                    }
                    m
                }
                None => 7,
            };
            vec![RC::from_range(T::cst(0), T::cst(max)), RC::from_range(T::cst(0), T::cst(3))]
        } else if id == T::cst(XOR) && b.payload.len() == 3 {
            let two = RC::from_mask(3u64);
            match (b.payload[0].try_to_single_value(), b.payload[1].try_to_single_value()) {
                (Some(p), Some(q)) => {
                    let (p, q) = (p.bv(), q.bv());
                    let small = p.lt(Bv::c(4)).and(q.lt(Bv::c(4)));
                    if branch(small) {
                        let z = T::from_term(p.xor(q).bounded(3));
                        vec![two, two, RC::from_value(z)]
                    } else {
                        vec![two, two, two]
                    }
                }
                _ => vec![two, two, two],
            }
        } else {
            b.payload.clone()
        };
        BusInteraction { bus_id: b.bus_id, multiplicity: b.multiplicity, payload }
    }
}
impl<T: Fld> IsBusStateful<T> for ToyBus<T> {
    fn is_stateful(&self, bus_id: T) -> bool {
        bus_id == T::cst(MEM) || bus_id == T::cst(EXEC)
    }
}
impl<T: Fld> RangeConstraintHandler<T> for ToyBus<T> {
    fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        b: &BusInteraction<GroupedExpression<T, V>>,
    ) -> Option<RangeConstraints<T, V>> {
        let id = b.bus_id.try_to_number()?;
        if id == T::cst(RANGE) && b.payload.len() == 2 {
            let n = b.payload[1].try_to_number()?;
            let bits = (0..=3i64).find(|k| n == T::cst(*k))?;
            Some(vec![(b.payload[0].clone(), RC::from_mask((1u64 << bits) - 1))])
        } else if id == T::cst(XOR) && b.payload.len() == 3 {
            // [x, 0, x], [0, x, x], [x, x, 0]
            let zero = |e: &GroupedExpression<T, V>| e.try_to_number().is_some_and(|n| n == T::cst(0));
            let (x, y, z) = (&b.payload[0], &b.payload[1], &b.payload[2]);
            let e = if zero(y) && x == z {
                x
            } else if zero(x) && y == z {
                y
            } else if zero(z) && x == y {
                x
            } else {
                return None;
            };
            Some(vec![(e.clone(), RC::from_mask(3u64))])
        } else {
            None
        }
    }
    fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        rcs: RangeConstraints<T, V>,
    ) -> Result<Vec<BusInteraction<GroupedExpression<T, V>>>, MakeRangeConstraintsError> {
        rcs.into_iter()
            .map(|(e, rc)| {
                let bits = (0..=3i64)
                    .find(|k| rc == RC::from_mask((1u64 << k) - 1))
                    .ok_or(MakeRangeConstraintsError("unsupported".into()))?;
                Ok(BusInteraction {
                    bus_id: GroupedExpression::from_number(T::cst(RANGE)),
                    multiplicity: GroupedExpression::from_number(T::cst(1)),
                    payload: vec![e, GroupedExpression::from_number(T::cst(bits))],
                })
            })
            .collect()
    }
}
/// Memory access: payload (space, pointer, data, timestamp), multiplicity -1 (get) or 1 (set).
pub struct ToyMem<T: Fld, V> {
    p: Vec<GroupedExpression<T, V>>,
    get: bool,
}
impl<T: Fld, V: Ord + Clone + Eq + Display + Hash> MemoryBusInteraction<T, V> for ToyMem<T, V> {
    type Address = Vec<GroupedExpression<T, V>>;
    fn try_from_bus_interaction(
        b: &BusInteraction<GroupedExpression<T, V>>,
        memory_bus_id: u64,
    ) -> Result<Option<Self>, MemoryBusInteractionConversionError> {
        match b.bus_id.try_to_number() {
            None => return Err(MemoryBusInteractionConversionError),
            Some(id) if id == T::cst(memory_bus_id as i64) => {}
            Some(_) => return Ok(None),
        }
        let m = b.multiplicity.try_to_number().ok_or(MemoryBusInteractionConversionError)?;
        let get = if m == T::cst(1) {
            false
        } else if m == T::cst(-1) {
            true
        } else {
            return Err(MemoryBusInteractionConversionError);
        };
        Ok(Some(ToyMem { p: b.payload.clone(), get }))
    }
    fn addr(&self) -> Self::Address {
        self.p[..2].to_vec()
    }
    fn data(&self) -> &[GroupedExpression<T, V>] {
        &self.p[2..3]
    }
    fn timestamp_limbs(&self) -> &[GroupedExpression<T, V>] {
        &self.p[3..4]
    }
    fn op(&self) -> MemoryOp {
        if self.get {
            MemoryOp::GetPrevious
        } else {
            MemoryOp::SetNew
        }
    }
}
#[allow(dead_code)]
pub fn unused<T: Fld>(r: &RC<T>, x: T) -> B {
    allows(r, x)
}
