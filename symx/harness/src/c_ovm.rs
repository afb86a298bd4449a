//! The OpenVM bus interaction handler (C16).
use crate::c_range::{allows, int};
use crate::field::*;
use crate::jobs::Job;
use crate::sysu::*;
use crate::tmpl::*;
use powdr_autoprecompiles::bus_map::BusType;
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::memory_optimizer::{MemoryBusInteraction, MemoryOp};
use powdr_autoprecompiles::range_constraint_optimizer::RangeConstraintHandler;
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler};
use powdr_constraint_solver::range_constraint::RangeConstraint as RC;
use powdr_number::BabyBearField;
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, BusMap, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use symcore::*;

const EXEC: i64 = 0;
const MEM: i64 = 1;
const PCL: i64 = 2;
const VAR: i64 = 3;
const BIT: i64 = 6;
const TUP: i64 = 7;
const SIZES: [[u32; 2]; 3] = [[256, 2048], [256, 8192], [256, 1000]];

/// Reference semantics of the OpenVM buses, written from the OpenVM specification.
fn ok<T: Fld>(id: i64, mult: T, a: &[T], sizes: [u32; 2]) -> B {
    let byte = |x: &T| x.bv().lt(Bv::c(256));
    let r = match id {
        BIT => {
            let z0 = a[2].zt();
            let zx = a[2].bv().equals(a[0].bv().and(Bv::c(255)).xor(a[1].bv().and(Bv::c(255))));
            B::all([byte(&a[0]), byte(&a[1]), a[3].zt().and(z0).or(a[3].eqt(&T::cst(1)).and(zx))])
        }
        VAR => B::any((0..=25u32).map(|b| {
            a[1].bv().equals(Bv::c(b as u128)).and(a[0].bv().lt(Bv::c(1 << b)))
        })),
        TUP => a[0].bv().lt(Bv::c(sizes[0] as u128)).and(a[1].bv().lt(Bv::c(sizes[1] as u128))),
        MEM => {
            let n = a.len();
            let get = mult.eqt(&T::cst(-1));
            let reg = a[0].eqt(&T::cst(1));
            let ram = a[0].eqt(&T::cst(2));
            let data = &a[2..n - 1];
            B::all([
                get.and(reg.or(ram)).implies(B::all(data.iter().map(byte))),
                B::all([get, reg, a[1].zt()]).implies(B::all(data.iter().map(|x| x.zt()))),
            ])
        }
        EXEC | PCL => B::TRUE,
        _ => unreachable!(),
    };
    mult.zt().or(r)
}
fn handler<T: Fld>() -> (OpenVmBusInteractionHandler<T>, [u32; 2]) {
    let i = choose(SIZES.len() + 1);
    if i == SIZES.len() {
        return (Default::default(), [256, 2048]);
    }
    let sizes = SIZES[i];
    let m = default_openvm_bus_map();
    let m = BusMap::from_id_type_pairs(m.all_types_by_id().iter().map(|(id, t)| {
        (*id, match t {
            BusType::Other(OpenVmBusType::TupleRangeChecker(_)) => BusType::Other(OpenVmBusType::TupleRangeChecker(sizes)),
            t => t.clone(),
        })
    }));
    (OpenVmBusInteractionHandler::new(m), sizes)
}
fn rc<T: Fld>(n: &str) -> RC<T> {
    match choose(4) {
        0 => RC::from_range(T::any(&format!("{n}.min")), T::any(&format!("{n}.max"))),
        1 => RC::from_mask(int::<T>(&format!("{n}.mask"))),
        2 => RC::from_value(T::any(&format!("{n}.val"))),
        _ => RC::default(),
    }
}
/// values near the interesting boundaries
fn near<T: Fld>(n: &str) -> T {
    let base = pick(&[0i64, 254, -2]);
    T::cst(base) + T::any_below(n, 4)
}
fn payload<T: Fld>(id: i64) -> Vec<RC<T>> {
    match id {
        BIT => {
            let op = match choose(5) {
                0 => RC::from_value(T::cst(0)),
                1 => RC::from_value(T::cst(1)),
                2 => RC::from_mask(1u64),
                3 => RC::from_value(T::cst(2)),
                _ => RC::default(),
            };
            // both known: the code computes with machine integers
            if choose_bool() {
                let z = if choose_bool() { RC::default() } else { RC::from_value(T::any("z")) };
                vec![RC::from_value(near("x")), RC::from_value(near("y")), z, op]
            } else {
                let x = rc("x");
                let y = match choose(3) {
                    0 => RC::from_range(T::any("y.min"), T::any("y.max")),
                    1 => RC::from_mask(int::<T>("y.mask")),
                    _ => RC::default(),
                };
                assume(y.range().0.eqt(&y.range().1).not());
                vec![x, y, RC::default(), op]
            }
        }
        VAR => {
            let bits = match choose(4) {
                0 => RC::from_value(T::any_below("bits", 27)),
                1 => RC::from_value(T::cst(-1)),
                2 => RC::from_range(T::cst(0), T::any_below("max_bits", 40)),
                _ => RC::default(),
            };
            vec![rc("x"), bits]
        }
        TUP => vec![rc("x"), rc("y")],
        MEM => {
            let sp = match choose(5) {
                0 => RC::from_value(T::cst(1)),
                1 => RC::from_value(T::cst(2)),
                2 => RC::from_value(T::cst(pick(&[0, 3, 4]))),
                3 => RC::from_mask(3u64),
                _ => RC::default(),
            };
            let ptr = match choose(3) {
                0 => RC::from_value(T::any("ptr.val")),
                1 => RC::from_range(T::any("ptr.min"), T::any("ptr.max")),
                _ => RC::default(),
            };
            vec![sp, ptr, rc("d0"), RC::default(), RC::default()]
        }
        _ => vec![rc("a"), RC::default()],
    }
}
fn handle<T: Fld>(id: i64) {
    let (h, sizes) = if id == TUP { handler::<T>() } else { (Default::default(), [256, 2048]) };
    let p = payload::<T>(id);
    let m = match choose(if id == MEM { 3 } else { 2 }) {
        0 => RC::from_value(T::any("mult")),
        1 => RC::default(),
        _ => RC::from_mask(1u64),
    };
    let b = BusInteraction { bus_id: RC::from_value(T::cst(id)), multiplicity: m, payload: p.clone() };
    let vals: Vec<T> = (0..p.len()).map(|i| T::any(&format!("v{i}"))).collect();
    let mv = T::any("m");
    let pre = B::all(
        [ok(id, mv, &vals, sizes), allows(&m, mv)]
            .into_iter()
            .chain(p.iter().zip(&vals).map(|(r, x)| allows(r, *x))),
    );
    note(|| format!("bus {id} mult {m} payload {:?}: message mult {mv} {vals:?}", p.iter().map(|r| r.to_string()).collect::<Vec<_>>()));
    match attempt(|| (h.handle_bus_interaction(b.clone()), h.handle_bus_interaction_checked(b.clone()))) {
        Ok((r, checked)) => {
            note(|| format!("result {:?} / checked error {}", r.payload.iter().map(|r| r.to_string()).collect::<Vec<_>>(), checked.is_err()));
            check_bool(r.payload.len() == p.len(), "the payload changes its length");
            let inside = |b: &BusInteraction<RC<T>>| {
                B::all(b.payload.iter().zip(&vals).map(|(r, x)| allows(r, *x)).chain([allows(&b.multiplicity, mv)]))
            };
            check(pre.implies(inside(&r)), "the handler excludes an allowed message");
            match checked {
                Ok(c) => check(pre.implies(inside(&c)), "the checked handler excludes an allowed message"),
                Err(_) => check(pre.not(), "the handler reports a violation for an allowed message"),
            }
        }
        Err(e) => check(pre.not(), &format!("the handler fails on an allowed message: {e}")),
    }
}
fn expr<T: Fld>(n: &str, i: u16) -> Tr<T> {
    match choose(4) {
        0 => v(i),
        1 => v(0).mul(k(3)).add(k(-7)),
        2 => c(&format!("{n}.c")),
        _ => v(0).mul(v(1)),
    }
}
fn env4<T: Fld>() -> Vec<T> {
    fresh_env(4)
}
fn pure<T: Fld>(id: i64) {
    let (h, sizes) = if id == TUP { handler::<T>() } else { (Default::default(), [256, 2048]) };
    let p: Vec<Tr<T>> = match id {
        BIT => {
            let op = match choose(4) {
                0 => k(0),
                1 => k(1),
                2 => c("op"),
                _ => v(3),
            };
            let z = match choose(3) {
                0 => v(2),
                1 => k(0),
                _ => c("z"),
            };
            vec![expr("x", 0), expr("y", 1), z, op]
        }
        VAR => vec![expr("x", 0), if choose_bool() { Tr::K(T::any_below("bits", 26)) } else { v(1) }],
        TUP => vec![expr("x", 0), expr("y", 1)],
        MEM => vec![k(1), v(0), v(1), v(2)],
        _ => vec![v(0), v(1)],
    };
    let b = bi(&(id, k(1), p.clone()));
    let env = env4::<T>();
    let msg: Vec<T> = p.iter().map(|t| t.val(&env)).collect();
    let r = h.pure_range_constraints(&b);
    note(|| format!("{b}: {:?} message {msg:?}", r.as_ref().map(|l| l.iter().map(|(e, r)| format!("{e} in {r}")).collect::<Vec<_>>())));
    if let Some(l) = r {
        cover("pure range constraint");
        check_bool(id != MEM && id != EXEC && id != PCL, "a stateful interaction is treated as a range check");
        let ranges = B::all(l.iter().map(|(e, r)| allows(r, eval(e, &|v: &Vr| env[v.0 as usize]))));
        check(ok(id, T::cst(1), &msg, sizes).iff(ranges), "the range constraints are not equivalent to the interaction");
    }
}
fn batch<T: Fld>(n: usize) {
    let (h, sizes) = handler::<T>();
    let mut l = vec![];
    for i in 0..n {
        let e: Tr<T> = match choose(3) {
            0 => v(i as u16),
            1 => v(0),
            _ => v(0).mul(k(3)).add(k(-7)),
        };
        let r = match choose(6) {
            0 => RC::from_mask(255u64),
            1 => RC::from_range(T::cst(0), T::cst(sizes[1] as i64 - 1)),
            2 => RC::from_mask((1u64 << pick(&[0, 1, 17, 25])) - 1),
            3 => RC::from_range(T::cst(0), T::any_below("max", 1 << 25)),
            4 => RC::from_mask(T::int_from(pick(&[254, 0x100, 0xfe00]))),
            _ => RC::from_range(T::any("lo"), T::cst(255)),
        };
        l.push((e, r));
    }
    let input = l.iter().map(|(e, r)| (e.ge(), *r)).collect();
    let env = env4::<T>();
    let want = B::all(l.iter().map(|(e, r)| allows(r, e.val(&env))));
    match attempt(|| h.batch_make_range_constraints(input)) {
        Ok(Ok(bs)) => {
            cover("implemented");
            let look = |v: &Vr| env[v.0 as usize];
            let mut got = vec![];
            for b in &bs {
                let b = eval_bus(b, &look);
                check(b.mult.eqt(&T::cst(1)), "a range check with another multiplicity than 1");
                let id = b.id.bv().as_const().unwrap() as i64;
                check_bool([BIT, VAR, TUP].contains(&id), "a range check on the wrong bus");
                got.push(ok(id, b.mult, &b.args, sizes));
            }
            note(|| format!("{:?} -> {:?} env {env:?}", l.iter().map(|(e, r)| format!("{e} in {r}")).collect::<Vec<_>>(), bs.iter().map(|b| b.to_string()).collect::<Vec<_>>()));
            check(B::all(got).iff(want), "the interactions do not implement the range constraints exactly");
        }
        Ok(Err(_)) => cover("refused"),
        Err(e) => check_bool(false, &format!("batching fails: {e}")),
    }
}
/// Memory interactions are decoded into operation, address, data and time.
fn memory<T: Fld>() {
    let n = 1 + choose(4);
    let id = pick(&[MEM, VAR, EXEC]);
    let sp = T::any("space");
    let mult = match choose(3) {
        0 => v(7),
        _ => c("mult"),
    };
    let mut a = vec![Tr::K(sp), v(0).mul(c("k")).add(v(1))];
    a.extend((0..n).map(|i| v(2 + i as u16)));
    a.push(v(6).add(k(1)));
    let b = bi(&(id, mult.clone(), a.clone()));
    let r = OpenVmMemoryBusInteraction::try_from_bus_interaction(&b, MEM as u64);
    let env: Vec<T> = fresh_env(8);
    let m = mult.val(&env);
    let look = |v: &Vr| env[v.0 as usize];
    note(|| format!("{b}"));
    match r {
        Err(_) => {
            cover("unknown");
            check_bool(id == MEM, "another bus is treated as a memory bus");
            if let Tr::K(m) = mult {
                check(m.eqt(&T::cst(1)).or(m.eqt(&T::cst(-1))).not(), "a memory access is not recognized");
            }
        }
        Ok(None) => {
            cover("other bus");
            check_bool(id != MEM, "a memory access is ignored");
        }
        Ok(Some(i)) => {
            cover("access");
            check_bool(id == MEM, "an interaction with another bus is treated as memory access");
            match i.op() {
                MemoryOp::SetNew => check(m.eqt(&T::cst(1)), "a get is treated as a set"),
                MemoryOp::GetPrevious => check(m.eqt(&T::cst(-1)), "a set is treated as a get"),
            }
            let got: Vec<T> = i.addr().into_iter().collect::<Vec<_>>().iter().chain(i.data()).chain(i.timestamp_limbs()).map(|e| eval(e, &look)).collect();
            check_bool(got.len() == a.len() && i.data().len() == n && i.timestamp_limbs().len() == 1, "fields of a memory access are lost");
            check(B::all(got.iter().zip(&a).map(|(x, y)| x.eqt(&y.val(&env)))), "fields of a memory access are mixed up");
        }
    }
}
fn is_stateful<T: Fld>() {
    let (h, _) = handler::<T>();
    let id = pick(&[EXEC, MEM, PCL, VAR, BIT, TUP]);
    check_bool(h.is_stateful(T::cst(id)) == (id == EXEC || id == MEM), "wrong statefulness of a bus");
}

const F: &[&str] = &["OpenVmBusInteractionHandler::{handle_bus_interaction,pure_range_constraints,batch_make_range_constraints,is_stateful}",
    "handle_bitwise_lookup", "bitwise_lookup_pure_range_constraints", "handle_memory", "handle_variable_range_checker",
    "variable_range_checker_pure_range_constraints", "TupleRangeCheckerHandler", "filter_byte_constraints", "range_constraint_to_num_bits",
    "OpenVmMemoryBusInteraction::try_from_bus_interaction", "BusInteractionHandler::handle_bus_interaction_checked"];
pub fn jobs(v: &mut Vec<Job>) {
    for (n, id) in [("exec", EXEC), ("mem", MEM), ("pc", PCL), ("range", VAR), ("bitwise", BIT), ("tuple", TUP)] {
        let s: &[usize] = match id {
            BIT => &[5, 2, 3],
            MEM => &[5],
            VAR => &[4],
            _ => &[],
        };
        v.push(Job::new("C16", format!("C16.handle.{n}"), move || handle::<SBB>(id)).real(move || handle::<BabyBearField>(id))
            .bounds("BabyBear; symbolic ranges, multiplicities and messages; both-known xor inputs near 0, 128, 256 and the modulus; bit counts up to 26").functions(F).split(s));
        v.push(Job::new("C16", format!("C16.pure.{n}"), move || pure::<SBB>(id)).real(move || pure::<BabyBearField>(id))
            .bounds("BabyBear; payload expressions with symbolic coefficients; bit counts up to 25").functions(F));
    }
    for n in 1..=4 {
        let s: &[usize] = if n >= 2 { &[4, 3, 6] } else { &[4] };
        v.push(Job::new("C16", format!("C16.batch.{n}"), move || batch::<SBB>(n)).real(move || batch::<BabyBearField>(n))
            .bounds(format!("BabyBear; {n} range constraints of 6 kinds on 3 kinds of expressions, 4 bus configurations; bit counts up to 25")).functions(F).split(s).thorough_if(n > 2));
    }
    v.push(Job::new("C16", "C16.memory", memory::<SBB>).real(memory::<BabyBearField>).bounds("BabyBear; 1..4 data fields, symbolic multiplicity and address space").functions(F));
    v.push(Job::new("C16", "C16.stateful", is_stateful::<SBB>).bounds("all six buses").functions(F));
}
