//! Building a whole precompile from a block of instructions of a toy machine (C17).
use crate::c_apc::{check_flow_hints, check_unsat, from_alg, to_machine, Flow};
use crate::c_exec::{state, St};
use crate::c_opt::sys_degree;
use crate::field::*;
use crate::jobs::Job;
use crate::sysu::*;
use crate::tmpl::*;
use crate::toybus::*;
use powdr_autoprecompiles::adapter::{Adapter, AdapterApc};
use powdr_autoprecompiles::blocks::{BasicBlock, Instruction, PcStep, Program, SuperBlock};
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, EmpiricalConstraints};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution::{
    LocalOptimisticLiteral, OptimisticConstraintEvaluator,
};
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::optimistic::execution_literals::optimistic_literals;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::trace_handler::{generate_trace, TraceTrait};
use powdr_autoprecompiles::{build, DegreeBound, InstructionHandler, VmConfig};
use powdr_constraint_solver::constraint_system::{
    AlgebraicConstraint, BusInteraction, ComputationMethod, ConstraintSystem, DerivedVariable,
};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::sync::Arc;
use symcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Ins<T: Fld> {
    kind: usize,
    ra: T,
    imm: T,
}
impl<T: Fld> fmt::Display for Ins<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "op{} r{} {}", self.kind, self.ra, self.imm)
    }
}
impl<T: Fld> PcStep for Ins<T> {
    fn pc_step() -> u32 {
        1
    }
}
impl<T: Fld> Instruction<T> for Ins<T> {
    fn pc_lookup_row(&self, pc: u64) -> Vec<T> {
        vec![T::cst(pc as i64), T::cst(self.kind as i64), self.ra, self.imm]
    }
}
struct NoProg;
impl<T: Fld> Program<Ins<T>> for NoProg {
    fn base_pc(&self) -> u64 {
        0
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = Ins<T>> + '_> {
        Box::new(std::iter::empty())
    }
    fn length(&self) -> u32 {
        0
    }
}
/// the machines of all instructions
struct Isa<T: Fld> {
    airs: Vec<Spec<T>>,
    machines: Vec<SymbolicMachine<T>>,
}
const NK: usize = 7;
fn air<T: Fld>(kind: usize) -> Spec<T> {
    // columns: 0 valid, 1 pc, 2 time, 3 opcode, 4 register, 5 immediate, 6 old value, 7 old time, 8.. more
    let mut s = Spec { nv: 8, alg: vec![boolean(v(0))], bus: vec![], ranges: vec![] };
    let mut new_value = v(6);
    let mut next_pc = v(1).add(k(1));
    match kind {
        // add immediate
        0 => new_value = v(6).add(v(5)),
        // skip if zero: 8 = (6 == 0), 9 = inverse
        1 => {
            s.nv = 10;
            s.alg.push(v(6).mul(v(9)).sub(v(0)).add(v(8)));
            s.alg.push(v(6).mul(v(8)));
            next_pc = v(1).add(k(1)).add(v(8).mul(v(5)));
        }
        // xor immediate
        2 => {
            s.nv = 9;
            s.bus.push((XOR, v(0), vec![v(6), v(5), v(8)]));
            new_value = v(8);
        }
        // split into limbs
        3 => {
            s.nv = 10;
            s.alg.push(lin(&[(1, 8), (2, 9), (-1, 6)], k(0)));
            s.bus.push((RANGE, v(0), vec![v(8), k(1)]));
            s.bus.push((RANGE, v(0), vec![v(9), v(0).mul(k(2))]));
            new_value = v(9);
        }
        // a flag decides between value and immediate
        4 => {
            s.nv = 9;
            s.alg.push(boolean(v(8)));
            new_value = v(8).mul(v(6).sub(v(5))).add(v(5));
        }
        // unguarded constants everywhere
        5 => {
            s.nv = 10;
            s.alg.push(v(8).sub(c("g0")).mul(v(9).sub(k(1))).add(c("g2")));
            s.alg.push(v(8).mul(v(8)).sub(v(8)).sub(k(2)).mul(k(3)));
            new_value = v(9).add(k(2));
        }
        // conditional second access
        _ => {
            s.nv = 9;
            s.alg.push(boolean(v(8)));
            s.bus.push((RANGE, v(8), vec![v(6), k(1)]));
            new_value = v(6).add(v(8));
        }
    }
    let m = |x: Tr<T>| x.mul(v(0));
    s.bus.push((EXEC, v(0).neg(), vec![v(1), v(2)]));
    s.bus.push((PCL, v(0), vec![v(1), v(3), v(4), v(5)]));
    s.bus.push((MEM, m(k(-1)), vec![k(1), v(4), v(6), v(7)]));
    s.bus.push((MEM, v(0), vec![k(1), v(4), new_value, v(2)]));
    s.bus.push((EXEC, v(0), vec![next_pc, v(2).add(k(1))]));
    s
}
impl<T: Fld> InstructionHandler for Isa<T> {
    type Field = T;
    type Instruction = Ins<T>;
    type AirId = usize;
    fn degree_bound(&self) -> DegreeBound {
        BOUND
    }
    fn get_instruction_air_and_id(&self, i: &Ins<T>) -> (usize, &SymbolicMachine<T>) {
        (i.kind, &self.machines[i.kind])
    }
    fn get_instruction_air_stats(&self, i: &Ins<T>) -> AirStats {
        AirStats::new(&self.machines[i.kind])
    }
}
const BOUND: DegreeBound = DegreeBound { identities: 3, bus_interactions: 3 };
struct Toy<T>(PhantomData<T>);
#[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
enum Other {
    Range,
    Xor,
}
impl fmt::Display for Other {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", if *self == Other::Range { "RANGE" } else { "XOR" })
    }
}
impl<T: Fld> Adapter for Toy<T> {
    type Field = T;
    type PowdrField = T;
    type InstructionHandler = Isa<T>;
    type BusInteractionHandler = ToyBus<T>;
    type Program = NoProg;
    type Instruction = Ins<T>;
    type MemoryBusInteraction<V: Ord + Clone + Eq + fmt::Display + std::hash::Hash> = ToyMem<T, V>;
    type CustomBusTypes = Other;
    type ApcStats = ();
    type AirId = usize;
    type ExecutionState = St<T>;
    fn into_field(e: T) -> T {
        e
    }
    fn from_field(e: T) -> T {
        e
    }
    fn apc_stats(_: Arc<AdapterApc<Self>>, _: &Isa<T>) {}
    fn is_branching(_: &Ins<T>) -> bool {
        false
    }
    fn is_allowed(_: &Ins<T>) -> bool {
        true
    }
}
fn isa<T: Fld>() -> Isa<T> {
    let airs: Vec<Spec<T>> = (0..NK).map(air).collect();
    let machines = airs.iter().map(to_machine).collect();
    Isa { airs, machines }
}
fn config<T: Fld>(h: &Isa<T>) -> VmConfig<'_, Isa<T>, ToyBus<T>, Other> {
    VmConfig {
        instruction_handler: h,
        bus_interaction_handler: ToyBus::new(),
        bus_map: BusMap::from_id_type_pairs([
            (EXEC as u64, BusType::ExecutionBridge),
            (MEM as u64, BusType::Memory),
            (PCL as u64, BusType::PcLookup),
            (RANGE as u64, BusType::Other(Other::Range)),
            (XOR as u64, BusType::Other(Other::Xor)),
        ]),
    }
}
fn shift<T: Fld>(t: &Tr<T>, o: u16) -> Tr<T> {
    subst(t, &|i| Tr::V(i + o))
}
fn subst<T: Fld>(t: &Tr<T>, f: &dyn Fn(u16) -> Tr<T>) -> Tr<T> {
    match t {
        Tr::K(x) => Tr::K(*x),
        Tr::V(i) => f(*i),
        Tr::Add(a, b) => subst(a, f).add(subst(b, f)),
        Tr::Sub(a, b) => subst(a, f).sub(subst(b, f)),
        Tr::Mul(a, b) => subst(a, f).mul(subst(b, f)),
        Tr::Neg(a) => subst(a, f).neg(),
    }
}
struct Blk<T: Fld> {
    ins: Vec<Ins<T>>,
    pcs: Vec<u64>,
    starts: Vec<(usize, u64)>,
    blocks: SuperBlock<Ins<T>>,
    off: Vec<u16>,
}
/// `cuts[i]`: instruction i starts a new basic block at that pc
fn block<T: Fld>(h: &Isa<T>, ins: Vec<Ins<T>>, starts: Vec<(usize, u64)>) -> Blk<T> {
    let mut bbs: Vec<BasicBlock<Ins<T>>> = vec![];
    let mut pcs = vec![];
    for (i, x) in ins.iter().enumerate() {
        if let Some((_, pc)) = starts.iter().find(|s| s.0 == i) {
            bbs.push(BasicBlock { start_pc: *pc, instructions: vec![] });
            pcs.push(*pc);
        } else {
            pcs.push(pcs[i - 1] + 1);
        }
        bbs.last_mut().unwrap().instructions.push(x.clone());
    }
    let mut off = vec![0u16];
    for x in &ins {
        off.push(off[off.len() - 1] + h.airs[x.kind].nv as u16);
    }
    Blk { ins, pcs, starts, blocks: SuperBlock::from(bbs), off }
}
/// What the block means: all instructions, valid, at their program counters.
fn reference<T: Fld>(h: &Isa<T>, b: &Blk<T>) -> Spec<T> {
    let mut s = Spec { nv: *b.off.last().unwrap() as usize, alg: vec![], bus: vec![], ranges: vec![] };
    for (i, x) in b.ins.iter().enumerate() {
        let (a, o) = (&h.airs[x.kind], b.off[i]);
        s.alg.push(v(o).sub(k(1)));
        for (j, y) in x.pc_lookup_row(b.pcs[i]).into_iter().enumerate() {
            let col = [1, 3, 4, 5][j];
            s.alg.push(v(o + col).sub(Tr::K(y)));
        }
        s.alg.extend(a.alg.iter().map(|t| shift(t, o)));
        s.bus.extend(a.bus.iter().map(|(id, m, p)| (*id, shift(m, o), p.iter().map(|t| shift(t, o)).collect())));
    }
    s
}
/// Equations that hold between instructions; only used to guess values of removed columns.
fn links<T: Fld>(s: &Spec<T>, b: &Blk<T>) -> Vec<Tr<T>> {
    let mut r = vec![];
    let mem: Vec<_> = s.bus.iter().filter(|x| x.0 == MEM).collect();
    for i in 1..b.ins.len() {
        r.push(v(b.off[i] + 2).sub(v(b.off[i - 1] + 2)).sub(k(1)));
        // the latest instruction with the same register
        if let Some(j) = (0..i).rev().find(|j| b.ins[*j].ra == b.ins[i].ra) {
            r.push(v(b.off[i] + 6).sub(mem[2 * j + 1].2[2].clone()));
            r.push(v(b.off[i] + 7).sub(v(b.off[j] + 2)));
        }
    }
    r
}
type M<T> = SymbolicMachine<T>;
/// The machine with one column replaced.
fn fix<T: Fld>(m: &M<T>, col: u16, x: T) -> Sys<T> {
    let f = |t: &powdr_autoprecompiles::expression::AlgebraicExpression<T>| {
        subst(&from_alg(t), &|i| if i == col { Tr::K(x) } else { Tr::V(i) }).ge()
    };
    ConstraintSystem {
        algebraic_constraints: m.constraints.iter().map(|c| AlgebraicConstraint::assert_zero(f(&c.expr))).collect(),
        bus_interactions: m
            .bus_interactions
            .iter()
            .map(|b| BusInteraction {
                bus_id: num(T::cst(b.id as i64)),
                multiplicity: f(&b.mult),
                payload: b.args.iter().map(&f).collect(),
            })
            .collect(),
        derived_variables: m
            .derived_columns
            .iter()
            .filter(|d| d.variable.id != col as u64)
            .map(|d| {
                let m = match &d.computation_method {
                    ComputationMethod::Constant(c) => ComputationMethod::Constant(*c),
                    ComputationMethod::QuotientOrZero(a, b) => ComputationMethod::QuotientOrZero(f(a), f(b)),
                };
                DerivedVariable::new(Vr(d.variable.id as u16), m)
            })
            .collect(),
    }
}
#[derive(Clone, Copy)]
enum Part {
    Flow,
    Guard,
    Columns,
}
fn check_apc<T: Fld>(h: &Isa<T>, b: &Blk<T>, extra: Vec<Tr<T>>, emp: &EmpiricalConstraints, part: Part) {
    let mut s = reference(h, b);
    s.alg.extend(extra);
    let o = Flow { honest: true, satisfiable: true };
    let apc = match attempt(|| build::<Toy<T>>(b.blocks.clone(), config(h), BOUND, ExportOptions::default(), emp)) {
        Ok(Ok(a)) => a,
        Ok(Err(_)) => {
            cover("rejected");
            return check_unsat(&s, o, "an executable block is rejected");
        }
        Err(e) => {
            cover("panic");
            note(|| format!("panic {e}"));
            return check_unsat(&s, o, "building panics on an executable block");
        }
    };
    let m = apc.machine();
    let used: BTreeSet<u64> = m.main_columns().map(|c| c.id).collect();
    let derived: BTreeSet<u64> = m.derived_columns.iter().map(|d| d.variable.id).collect();
    let valid = m.derived_columns.last().map(|d| d.variable.id as u16).unwrap_or(u16::MAX);
    note(|| format!("block {:?} gives {m}", b.ins));
    match part {
        Part::Flow => {
            let sys = fix(m, valid, T::cst(1));
            let d = sys_degree(&fixless(m));
            check_bool(d.0 <= BOUND.identities && d.1 <= BOUND.bus_interactions, "the degree bound is exceeded");
            check_flow_hints(&s, &sys, o, &links(&s, b));
        }
        Part::Guard => {
            check_bool(
                m.derived_columns.iter().any(|d| {
                    d.variable.id == valid as u64 && matches!(&d.computation_method, ComputationMethod::Constant(c) if *c == T::cst(1))
                }),
                "the validity column is not one on used rows",
            );
            // an unused row: all zero
            let zero = |_: &Vr| T::cst(0);
            let z = fixless(m);
            check(alg_sat(&z.algebraic_constraints, &zero), "an unused row of zeros violates a constraint");
            for i in &z.bus_interactions {
                check(eval_bus(i, &zero).mult.zt(), "an unused row of zeros sends a message");
            }
            // any row with validity zero sends nothing; validity is boolean
            let env: BTreeMap<u64, T> = used.iter().chain(&derived).map(|i| (*i, T::any(&format!("row_{i}")))).collect();
            let at = |x: &Vr| env[&(x.0 as u64)];
            let sat = alg_sat(&z.algebraic_constraints, &at);
            let va = env[&(valid as u64)];
            note(|| format!("{m} with row {env:?}"));
            check(sat.implies(va.zt().or(va.eqt(&T::cst(1)))), "the validity column is not boolean");
            let quiet = B::all(z.bus_interactions.iter().map(|i| eval_bus(i, &at).mult.zt()));
            check(sat.and(va.zt()).implies(quiet), "an invalid row sends a message");
        }
        Part::Columns => columns(h, b, &apc, &used, &derived),
    }
}
fn fixless<T: Fld>(m: &M<T>) -> Sys<T> {
    fix(m, u16::MAX, T::cst(0))
}
struct Rows {
    w: usize,
    tag: usize,
}
impl<T: Fld> TraceTrait<T> for Rows {
    type Values = usize;
    fn width(&self) -> usize {
        self.w
    }
    fn values(&self) -> &usize {
        &self.tag
    }
}
/// The link between the precompile's columns and the original rows.
fn columns<T: Fld>(h: &Isa<T>, b: &Blk<T>, apc: &AdapterApc<Toy<T>>, used: &BTreeSet<u64>, derived: &BTreeSet<u64>) {
    check_bool(apc.subs().len() == b.ins.len(), "not every instruction has substitutions");
    let mut seen = BTreeSet::new();
    for (i, subs) in apc.subs().iter().enumerate() {
        for x in subs {
            check_bool(
                x.original_poly_index < h.airs[b.ins[i].kind].nv && x.apc_poly_id == b.off[i] as u64 + x.original_poly_index as u64,
                "a column is taken from the wrong place",
            );
            check_bool(seen.insert(x.apc_poly_id), "a column is assigned twice");
        }
    }
    for u in used {
        check_bool(derived.contains(u) || seen.contains(u), "a column is not assigned");
    }
    for u in &seen {
        check_bool(used.contains(u) && !derived.contains(u), "a column is assigned without need");
    }
    check_bool(apc.start_pcs() == b.starts.iter().map(|s| s.1).collect::<Vec<_>>(), "wrong start pcs");
    // the rows of the original instructions, for three calls
    let kinds: BTreeSet<usize> = b.ins.iter().map(|i| i.kind).collect();
    let traces: HashMap<usize, Rows> = kinds.iter().map(|x| (*x, Rows { w: 20 + x, tag: *x })).collect();
    let calls = 3;
    let t = generate_trace(&traces, h, calls, apc);
    let live: Vec<usize> = (0..b.ins.len()).filter(|i| !apc.subs()[*i].is_empty()).collect();
    check_bool(t.dummy_values.len() == calls, "wrong number of trace rows");
    check_bool(t.dummy_trace_index_to_apc_index_by_instruction.len() == live.len(), "wrong number of instruction rows");
    let mut pos: BTreeSet<usize> = t.apc_poly_id_to_index.values().copied().collect();
    check_bool(
        t.apc_poly_id_to_index.keys().copied().collect::<BTreeSet<_>>() == used.iter().copied().collect::<BTreeSet<_>>()
            && pos.len() == used.len()
            && pos.pop_last().is_none_or(|p| p + 1 == used.len()),
        "trace columns are not numbered uniquely and contiguously",
    );
    for (call, rows) in t.dummy_values.iter().enumerate() {
        check_bool(rows.len() == live.len(), "wrong number of original rows");
        for (n, (row, i)) in rows.iter().zip(&live).enumerate() {
            let kind = b.ins[*i].kind;
            // the original trace lists, per call, the instructions of this kind that are needed
            let same = live.iter().filter(|j| b.ins[**j].kind == kind).count();
            let before = live[..n].iter().filter(|j| b.ins[**j].kind == kind).count();
            check_bool(
                *row.data == kind && row.length == 20 + kind && row.start == (call * same + before) * (20 + kind),
                "a value is read from the wrong original row",
            );
        }
    }
    for (n, i) in live.iter().enumerate() {
        let got: BTreeSet<(usize, usize)> = t.dummy_trace_index_to_apc_index_by_instruction[n].iter().copied().collect();
        let want: BTreeSet<(usize, usize)> = apc.subs()[*i]
            .iter()
            .map(|x| (x.original_poly_index, t.apc_poly_id_to_index[&(b.off[*i] as u64 + x.original_poly_index as u64)]))
            .collect();
        check_bool(got == want, "a value is written to the wrong column");
    }
    // superblocks: one pc check per basic block
    let states: Vec<St<T>> = (0..b.ins.len()).map(|i| state(i, i)).collect();
    let mut ev = OptimisticConstraintEvaluator::new();
    note(|| format!("block {:?} starts {:?} states {states:?}", b.ins, b.starts));
    for (i, st) in states.iter().enumerate() {
        let want = match b.starts.iter().find(|x| x.0 == i) {
            Some((_, pc)) => st.pc.eqt(&T::cst(*pc as i64)),
            None => B::TRUE,
        };
        if ev.try_next_execution_step(st, &apc.optimistic_constraints).is_ok() {
            check(want, "execution enters the middle of the superblock from another pc");
        } else {
            check(want.not(), "the expected path through the superblock is rejected");
            return;
        }
    }
}
fn ins<T: Fld>(i: usize, kind: usize) -> Ins<T> {
    Ins { kind, ra: T::any_below(&format!("ra{i}"), 4), imm: T::any(&format!("imm{i}")) }
}
fn some_block<T: Fld>(h: &Isa<T>, kinds: &[usize], starts: Vec<(usize, u64)>) -> Blk<T> {
    block(h, kinds.iter().enumerate().map(|(i, x)| ins(i, *x)).collect(), starts)
}
fn straight<T: Fld>(n: usize, part: Part) {
    let h = isa::<T>();
    let kinds: Vec<usize> = (0..n).map(|_| choose(NK)).collect();
    let b = some_block(&h, &kinds, vec![(0, 4)]);
    check_apc(&h, &b, vec![], &EmpiricalConstraints::default(), part);
}
/// jumps between basic blocks
fn superblock<T: Fld>(part: Part) {
    let h = isa::<T>();
    let (kinds, starts): (&[usize], Vec<(usize, u64)>) = match choose(4) {
        0 => (&[1, 0], vec![(0, 4), (1, 7)]),
        1 => (&[0, 1, 0], vec![(0, 4), (2, 7)]),
        2 => (&[1, 1, 2], vec![(0, 4), (1, 7), (2, 4)]),
        _ => (&[1, 0], vec![(0, 4), (1, 5)]),
    };
    let b = some_block(&h, kinds, starts);
    check_apc(&h, &b, vec![], &EmpiricalConstraints::default(), part);
}
/// facts from executions become constraints about exactly the named cells
fn empirical<T: Fld>(part: Part) {
    let h = isa::<T>();
    let (kinds, starts): (&[usize], Vec<(usize, u64)>) = match choose(3) {
        0 => (&[0, 4], vec![(0, 4)]),
        1 => (&[4, 0], vec![(0, 4), (1, 7)]),
        _ => (&[0, 0], vec![(0, 4), (1, 4)]),
    };
    let b = some_block(&h, kinds, starts);
    let mut emp = EmpiricalConstraints::default();
    let mut extra = vec![];
    let col = choose(2) + 6;
    let val = choose(2) as u32;
    // the fact holds for the first pc; other columns vary
    let w = h.airs[b.ins[0].kind].nv;
    let r: Vec<(u32, u32)> = (0..w).map(|i| if i == col { (val, val) } else { (0, 9) }).collect();
    emp.column_ranges_by_pc.insert(b.pcs[0] as u32, r);
    for (i, pc) in b.pcs.iter().enumerate() {
        if *pc == b.pcs[0] {
            extra.push(v(b.off[i] + col as u16).sub(k(val as i64)));
        }
    }
    // equal columns in the last basic block
    let (at, pc) = *b.starts.last().unwrap();
    let last = b.ins.len() - 1 - at;
    let cells = match choose(3) {
        0 => vec![],
        1 => vec![(last, 6), (last, 5)],
        _ => vec![(0, 2), (last, 7)],
    };
    if cells.len() > 1 && cells[0] != cells[1] {
        emp.equivalence_classes_by_block
            .insert(pc, [cells.iter().map(|c| BlockCell::new(c.0, c.1)).collect::<Vec<_>>()].into_iter().collect());
        for (bi, start) in b.starts.iter() {
            if *start == pc {
                let x = |c: (usize, usize)| v(b.off[bi + c.0] + c.1 as u16);
                extra.push(x(cells[0]).sub(x(cells[1])));
            }
        }
    }
    check_apc(&h, &b, extra, &emp, part);
}
/// A literal names the memory content that the column holds.
fn literals<T: Fld>() {
    let h = isa::<T>();
    let kinds = [choose(NK), choose(NK)];
    let b = some_block(&h, &kinds, vec![(0, 4)]);
    let Ok(map) = attempt(|| optimistic_literals::<Toy<T>>(&b.blocks, &config(&h), &BOUND)) else {
        cover("panic");
        return;
    };
    let env = fresh_env::<T>(*b.off.last().unwrap() as usize);
    let s = reference(&h, &b);
    let mem: Vec<_> = s.bus.iter().filter(|x| x.0 == MEM).map(|x| bval(x, &env)).collect();
    note(|| format!("block {:?} literals {map:?} under {env:?}", b.ins));
    for (r, l) in &map {
        cover("literal");
        let id = r.id as u16;
        let i = (0..b.ins.len()).find(|i| b.off[*i] <= id && id < b.off[i + 1]);
        let Some(i) = i else {
            check_bool(false, "a literal is given for an unknown column");
            return;
        };
        // the instruction alone is satisfied
        let one = Spec {
            nv: s.nv,
            alg: s.alg.iter().filter(|t| within(t, b.off[i], b.off[i + 1])).cloned().collect(),
            bus: s.bus.iter().filter(|x| x.2.iter().chain([&x.1]).all(|t| within(t, b.off[i], b.off[i + 1]))).cloned().collect(),
            ranges: vec![],
        };
        let LocalOptimisticLiteral::RegisterLimb(addr, lm) = &l.val else {
            check_bool(false, "a memory column is mapped to the pc");
            return;
        };
        check_bool(*lm == 0 && addr.len() == 2, "wrong limb or address");
        let same = addr[0].eqt(&T::cst(1)).and(addr[1].eqt(&b.ins[i].ra));
        let x = env[id as usize];
        let old = B::lit(l.instr_idx == i).and(x.eqt(&mem[2 * i].args[2]));
        let new = B::lit(l.instr_idx == i + 1).and(x.eqt(&mem[2 * i + 1].args[2]));
        check(one.sat(&env).implies(same.and(old.or(new))), "a literal names another value than its column");
    }
}
fn within<T: Fld>(t: &Tr<T>, a: u16, b: u16) -> bool {
    match t {
        Tr::K(_) => true,
        Tr::V(i) => a <= *i && *i < b,
        Tr::Add(x, y) | Tr::Sub(x, y) | Tr::Mul(x, y) => within(x, a, b) && within(y, a, b),
        Tr::Neg(x) => within(x, a, b),
    }
}
const F: &[&str] = &["build", "statements_to_symbolic_machine", "globalize_references", "optimize", "add_guards", "Apc::new", "superblock_pc_constraints", "EmpiricalConstraints::for_block",
    "ConstraintGenerator::generate_constraints", "BlockCellAlgebraicReferenceMapper", "generate_trace", "optimistic_literals", "convert_apc_field_type"];
pub fn jobs(j: &mut Vec<Job>) {
    for (n, part) in [("flow", Part::Flow), ("guard", Part::Guard), ("cols", Part::Columns)] {
        j.push(Job::new("C17", format!("C17.{n}.1"), move || straight::<S13>(1, part)).functions(F).cost(4).split(&[NK]).bounds("one instruction of 7 kinds, any register, immediate and circuit constants"));
        j.push(Job::new("C17", format!("C17.{n}.2"), move || straight::<S13>(2, part)).functions(F).cost(7).split(&[NK, NK]).bounds("all pairs of 7 instruction kinds"));
        j.push(Job::new("C17", format!("C17.{n}.3"), move || straight::<S13>(3, part)).functions(F).cost(9).split(&[NK, NK, NK]).thorough().bounds("all triples of 7 instruction kinds"));
        j.push(Job::new("C17", format!("C17.super.{n}"), move || superblock::<S13>(part)).functions(F).cost(5).split(&[4]).bounds("4 superblocks of 2 and 3 instructions"));
        j.push(Job::new("C17", format!("C17.emp.{n}"), move || empirical::<S13>(part)).functions(F).cost(5).split(&[3]).bounds("constant columns and equal columns in 3 blocks"));
    }
    j.push(Job::new("C17", "C17.literals", literals::<S13>).functions(F).cost(5).split(&[NK]).bounds("pairs of 7 instruction kinds"));
}
