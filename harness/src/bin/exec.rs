//! C23, C24, C25: run-time selection of calls, optimistic conditions, empirical observations.
use powdr_autoprecompiles::adapter::AdapterVmConfig;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::{
    BlockCell, ConstraintGenerator, DebugInfo, EmpiricalConstraints, EqualityConstraint,
    EqualityExpression, Partition,
};
use powdr_autoprecompiles::execution::{
    Apc, ApcCandidates, LocalOptimisticLiteral, OptimisticConstraint, OptimisticConstraintEvaluator,
    OptimisticConstraints, OptimisticExpression, OptimisticLiteral,
};
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::optimistic::algebraic_references::BlockCellAlgebraicReferenceMapper;
use powdr_autoprecompiles::optimistic::config::optimistic_precompile_config;
use powdr_autoprecompiles::optimistic::execution_constraint_generator::generate_execution_constraints;
use powdr_autoprecompiles::optimistic::execution_literals::optimistic_literals;
use powdr_autoprecompiles::{build, DegreeBound, VmConfig};
use powdr_number::{BabyBearField, FieldElement, LargeInt};
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use powdr_verif_harness::engine::{catch, main as run, CaseResult, Failure, Gen, Property, Sub};
use powdr_verif_harness::model::TinyBuses;
use powdr_verif_harness::tiny::Fp;
use powdr_verif_harness::vm::*;
use powdr_verif_harness::{ensure, ensure_eq};
use rayon::iter::IntoParallelIterator;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Cond = OptimisticConstraint<u8, u64>;
type Lit = OptimisticLiteral<u8>;

fn panicked(e: String) -> Failure {
    Failure::new("panic", e)
}

// ---------------------------------------------------------------------------------------------
// Conditions

const REGS: usize = 3;

fn lit_value(l: &Lit, s: &SimState) -> u64 {
    match l.val {
        LocalOptimisticLiteral::Pc => s.pc,
        LocalOptimisticLiteral::RegisterLimb(r, limb) => s.regs[r as usize] >> (8 * limb) & 0xff,
    }
}

fn lits(c: &Cond) -> Vec<Lit> {
    [&c.left, &c.right]
        .into_iter()
        .filter_map(|e| match e {
            OptimisticExpression::Literal(l) => Some(*l),
            _ => None,
        })
        .collect()
}

/// The step at which the condition can be decided.
fn decidable(c: &Cond) -> usize {
    lits(c).iter().map(|l| l.instr_idx).max().unwrap_or(0)
}

fn holds(c: &Cond, hist: &[SimState]) -> bool {
    let v = |e: &OptimisticExpression<u8, u64>| match e {
        OptimisticExpression::Number(n) => *n,
        OptimisticExpression::Literal(l) => lit_value(l, &hist[l.instr_idx]),
    };
    v(&c.left) == v(&c.right)
}

fn gen_state(g: &mut Gen, prev: Option<&SimState>) -> SimState {
    let regs = (0..REGS)
        .map(|r| match prev {
            Some(p) if g.chance(2, 3) => p.regs[r],
            _ => (0..3).fold(0, |a, i| a | g.below(3) << (8 * i)),
        })
        .collect();
    let pc = match prev {
        Some(p) if g.chance(3, 4) => p.pc + 1,
        _ => g.below(6),
    };
    let clk = match prev {
        Some(p) => p.clk + if g.chance(1, 5) { 1 + g.usize(3) } else { 1 },
        None => g.usize(3),
    };
    SimState { pc, regs, clk }
}

fn gen_lit(g: &mut Gen, len: usize) -> Lit {
    OptimisticLiteral {
        instr_idx: g.usize(len + 1),
        val: if g.chance(1, 4) {
            LocalOptimisticLiteral::Pc
        } else {
            LocalOptimisticLiteral::RegisterLimb(g.below(REGS as u64) as u8, g.usize(3))
        },
    }
}

/// A condition about a run of `len` steps; mostly true of the given history.
fn gen_cond(g: &mut Gen, len: usize, hist: &[SimState]) -> Cond {
    let l = gen_lit(g, len);
    let mut right = None;
    if g.chance(1, 2) {
        // something equal
        if l.instr_idx < hist.len() {
            let v = lit_value(&l, &hist[l.instr_idx]);
            if g.bool() {
                right = Some(OptimisticExpression::Number(v));
            } else {
                for _ in 0..12 {
                    let m = gen_lit(g, len);
                    if m.instr_idx < hist.len() && lit_value(&m, &hist[m.instr_idx]) == v {
                        right = Some(OptimisticExpression::Literal(m));
                        break;
                    }
                }
            }
        }
    }
    let right = right.unwrap_or_else(|| {
        if g.chance(1, 3) {
            OptimisticExpression::Literal(gen_lit(g, len))
        } else {
            OptimisticExpression::Number(g.below(3))
        }
    });
    let left = if g.chance(1, 25) {
        OptimisticExpression::Number(g.below(2))
    } else {
        OptimisticExpression::Literal(l)
    };
    if g.bool() {
        OptimisticConstraint { left, right }
    } else {
        OptimisticConstraint { left: right, right: left }
    }
}

fn gen_conds(g: &mut Gen, len: usize, hist: &[SimState]) -> Vec<Cond> {
    let n = g.weighted(&[1, 3, 3, 2, 1, 1]);
    let mut v: Vec<Cond> = (0..n).map(|_| gen_cond(g, len, hist)).collect();
    if g.chance(2, 3) {
        // keep the true ones
        v.retain(|c| decidable(c) < hist.len() && holds(c, hist));
    }
    v
}

fn c24_history(g: &mut Gen) -> CaseResult {
    let len = g.range(1, 6);
    let mut hist: Vec<SimState> = vec![];
    for _ in 0..=len {
        let s = gen_state(g, hist.last());
        hist.push(s);
    }
    let conds = gen_conds(g, len, &hist);
    g.note(|| format!("history {hist:?}\nconditions {conds:?}"));
    let first_false = conds.iter().filter(|c| !holds(c, &hist)).map(decidable).min();
    if conds.iter().any(|c| {
        let l = lits(c);
        l.len() == 2 && l[0].instr_idx != l[1].instr_idx
    }) {
        g.nontrivial();
    }
    g.label(if first_false.is_some() { "rejected" } else { "accepted" });
    let mut oc = OptimisticConstraints::from_constraints(conds.clone());
    if g.chance(1, 10) {
        // as stored
        let text = serde_json::to_string(&oc).unwrap();
        let back: OptimisticConstraints<u8, u64> =
            serde_json::from_str(&text).map_err(|e| Failure::new("serialisation", e.to_string()))?;
        ensure!(back == oc, "serialisation", "{text}");
        oc = back;
    }
    let mut ev = OptimisticConstraintEvaluator::new();
    for (k, s) in hist.iter().enumerate() {
        ensure_eq!(ev.instruction_index(), k, "instruction-index");
        let r = catch(|| ev.try_next_execution_step(s, &oc)).map_err(panicked)?;
        if first_false == Some(k) {
            ensure!(r.is_err(), "not-rejected", "step {k} of {hist:?}\n{conds:?}");
            return Ok(());
        }
        ensure!(r.is_ok(), "wrongly-rejected", "step {k}, first false {first_false:?}, {hist:?}\n{conds:?}");
    }
    ensure!(first_false.is_none(), "not-rejected", "{first_false:?} of {hist:?}\n{conds:?}");
    Ok(())
}

/// A compiled superblock runs exactly when execution enters its blocks at the right steps.
fn c24_superblock(g: &mut Gen) -> CaseResult {
    let kit = Kit::tiny(2);
    let n = g.range(1, 4);
    let mut blocks = vec![];
    for _ in 0..n {
        let len = g.range(1, 3);
        blocks.push(BasicBlock {
            start_pc: g.below(6),
            instructions: (0..len).map(|_| StepIns::<1>(Ins::new(1, [0; 3]))).collect(),
        });
    }
    let block = SuperBlock::from(blocks.clone());
    let total = block.instructions().count();
    // an instruction that may continue anywhere
    let vm = jumpy::<Fp<61>>(&kit);
    let bound = DegreeBound { identities: 3, bus_interactions: 2 };
    let h: Handler<Fp<61>, 1> = handler(&vm, &|x| x, bound);
    let cfg: AdapterVmConfig<TinyAdapter<61>> = VmConfig {
        instruction_handler: &h,
        bus_interaction_handler: TinyBuses::new(2, true),
        bus_map: tiny_bus_map(),
    };
    let apc = catch(|| {
        build::<TinyAdapter<61>>(block.clone(), cfg, bound, ExportOptions::default(), &EmpiricalConstraints::default())
    })
    .map_err(panicked)?;
    let Ok(apc) = apc else {
        // the straight-line part contradicts the next address
        return Ok(());
    };
    let starts: BTreeMap<usize, u64> = {
        let mut m = BTreeMap::new();
        let mut i = 0;
        for b in &blocks {
            m.insert(i, b.start_pc);
            i += b.instructions.len();
        }
        m
    };
    // a history that mostly follows the block
    let pcs: Vec<u64> = block.pcs().collect();
    let mut hist: Vec<SimState> = vec![];
    let wrong = g.bool().then(|| g.usize(total));
    for i in 0..=total {
        let mut s = gen_state(g, hist.last());
        if i < total {
            s.pc = pcs[i];
            if wrong == Some(i) {
                s.pc = g.below(9);
            }
        }
        hist.push(s);
    }
    g.note(|| format!("{block:?} {:?}", hist.iter().map(|s| s.pc).collect::<Vec<_>>()));
    if n > 1 {
        g.nontrivial();
    }
    let first_false = starts.iter().find(|(i, pc)| hist[**i].pc != **pc).map(|(i, _)| *i);
    g.label(if first_false.is_some() { "rejected" } else { "accepted" });
    let mut ev = OptimisticConstraintEvaluator::new();
    for (k, s) in hist.iter().enumerate() {
        let r = catch(|| ev.try_next_execution_step(s, &apc.optimistic_constraints)).map_err(panicked)?;
        ensure!(
            r.is_err() == (first_false == Some(k)),
            "superblock-entry",
            "step {k}, expected first failure {first_false:?}; block starts {starts:?}, pcs {:?}",
            hist.iter().map(|s| s.pc).collect::<Vec<_>>()
        );
        if r.is_err() {
            break;
        }
    }
    Ok(())
}

fn jumpy<T: FieldElement>(kit: &Kit) -> Vm<T> {
    use powdr_verif_harness::model::{Bus, Ex, Sys, Var};
    let v = |i: u32| Ex::<T>::V(Var(i));
    let bus = |id: u64, mult: Ex<T>, args: Vec<Ex<T>>| Bus { id: Ex::c(id), mult, args };
    let sys = Sys {
        alg: vec![v(2) * (v(2) - Ex::c(1))],
        bus: vec![
            bus(kit.pc, v(2), vec![v(0), Ex::c(1), v(3), v(4), v(5)]),
            bus(kit.exec, -v(2), vec![v(0), v(1)]),
            bus(kit.exec, v(2), vec![v(6), v(1) + Ex::c(1)]),
        ],
        ..Sys::default()
    };
    Vm {
        kit: kit.clone(),
        airs: vec![Air {
            names: ["pc", "ts", "valid", "a", "b", "c", "next"].iter().map(|s| s.to_string()).collect(),
            fills: vec![],
            sys,
            accesses: vec![],
            base: 1,
            n: 1,
            next_pc: v(6),
            ticks: 1,
            arg_kinds: [0; 3],
            branching: true,
        }],
    }
}

/// Conditions derived from columns denote the values of these columns.
fn c24_literals<T, const S: u32>(g: &mut Gen, adapter: LiteralsOf<T>, kit: Kit) -> CaseResult
where
    T: FieldElement,
{
    let vm: Vm<T> = Vm::generate(g, kit.clone(), 2, 24, 2);
    let len = g.range(1, 3);
    let base = kit.pc_step * g.below(3);
    let mut st = State { pc: T::from(base), ts: T::from(60_000 % adapter.ts_mod), mem: BTreeMap::new() };
    let mut rows = vec![];
    let mut states = vec![st.clone()];
    let mut code = vec![];
    for i in 0..len {
        let ins = {
            let k = g.usize(vm.airs.len());
            vm.airs[k].instruction(g, &kit)
        };
        let pc = base + i as u64 * kit.pc_step;
        st.pc = T::from(pc);
        let air = &vm.airs[vm.air_of(ins.op)];
        let row = air.execute(g, &kit, &ins, &mut st);
        rows.push(row);
        states.push(st.clone());
        code.push((pc, ins));
    }
    // cells that are accessed first later on had their value before
    let mut init = BTreeMap::new();
    for (row, (_, ins)) in rows.iter().zip(&code) {
        for a in &vm.airs[vm.air_of(ins.op)].accesses {
            let ev = |e: &powdr_verif_harness::model::Ex<T>| e.eval(&|v| row[v.0 as usize]);
            if !ev(&a.mult).is_zero() {
                let prev: Vec<T> = a.prev.iter().map(|v| row[v.0 as usize]).collect();
                init.entry((a.space, ev(&a.ptr))).or_insert((prev, row[a.prev_ts.0 as usize]));
            }
        }
    }
    for s in &mut states {
        for (k, v) in &init {
            s.mem.entry(*k).or_insert(v.clone());
        }
    }
    g.note(|| format!("{code:?}\n{rows:?}"));
    let Some(found) = (adapter.run)(&vm, base, &code)? else { return Ok(()) };
    let (_, offsets) = vm.block_system(&code);
    for (id, (idx, addr, limb)) in found {
        // which column?
        let i = offsets.iter().rposition(|o| *o as u64 <= id).unwrap();
        let col = (id - offsets[i] as u64) as usize;
        let a: Vec<u64> = addr.iter().map(|x| x.to_integer().try_into_u64().unwrap()).collect();
        if a[0] != 1 {
            continue;
        }
        g.nontrivial();
        ensure!(idx <= len, "literal-step", "step {idx} of {len}");
        // a register the instruction does not touch before has the value of the next known state
        let Some((data, _)) = states[idx].mem.get(&(a[0], addr[1])) else {
            return Err(Failure::new("literal-address", format!("{a:?} is not accessed; {code:?}")));
        };
        ensure!(
            rows[i].get(col).is_some_and(|v| data.get(limb) == Some(v)),
            "literal-value",
            "column {} of instruction {i} is {:?}, the literal says limb {limb} of {a:?} at step {idx}: {data:?}\n{code:?}\n{:?}",
            vm.airs[vm.air_of(code[i].1.op)].names[col],
            rows[i].get(col),
            vm.airs[vm.air_of(code[i].1.op)].sys
        );
    }
    Ok(())
}

type Literals<T> = Vec<(u64, (usize, Vec<T>, usize))>;
struct LiteralsOf<T> {
    ts_mod: u64,
    #[allow(clippy::type_complexity)]
    run: fn(&Vm<T>, u64, &[(u64, Ins)]) -> Result<Option<Literals<T>>, Failure>,
}

fn block_of<const S: u32>(base: u64, code: &[(u64, Ins)]) -> SuperBlock<StepIns<S>> {
    BasicBlock { start_pc: base, instructions: code.iter().map(|(_, i)| StepIns(i.clone())).collect() }.into()
}

macro_rules! literals {
    ($name:ident, $adapter:ty, $field:ty, $step:expr, $conv:expr, $buses:expr, $map:expr) => {
        fn $name(vm: &Vm<$field>, base: u64, code: &[(u64, Ins)]) -> Result<Option<Literals<$field>>, Failure> {
            let bound = DegreeBound { identities: 3, bus_interactions: 2 };
            let h: Handler<_, $step> = handler(vm, &$conv, bound);
            let cfg: AdapterVmConfig<$adapter> =
                VmConfig { instruction_handler: &h, bus_interaction_handler: $buses, bus_map: $map };
            let block = block_of::<$step>(base, code);
            // an instruction that cannot be executed at all is not our concern here
            let Ok(r) = catch(|| optimistic_literals::<$adapter>(&block, &cfg, &bound)) else {
                return Ok(None);
            };
            Ok(Some(
                r.into_iter()
                    .map(|(r, l)| {
                        let LocalOptimisticLiteral::RegisterLimb(a, limb) = l.val else { unreachable!() };
                        (r.id, (l.instr_idx, a, limb))
                    })
                    .collect(),
            ))
        }
    };
}
literals!(literals_tiny, TinyAdapter<61>, Fp<61>, 1, |x| x, TinyBuses::new(2, true), tiny_bus_map());
literals!(
    literals_baby,
    BabyAdapter,
    BabyBearField,
    4,
    |x: BabyBearField| Baby(x.to_integer().try_into_u32().unwrap()),
    OpenVmBusInteractionHandler::<BabyBearField>::default(),
    baby_bus_map()
);

fn c24_lits(g: &mut Gen) -> CaseResult {
    // Which accesses an instruction makes is known from the instruction: the literals rely on
    // the optimizer to merge the accesses of one instruction to the same register, which needs
    // equal multiplicities.
    let fixed = |k: Kit| Kit { data_mult: false, ..k };
    if g.bool() {
        c24_literals::<Fp<61>, 1>(g, LiteralsOf { ts_mod: 61, run: literals_tiny }, fixed(Kit::tiny(2)))
    } else {
        c24_literals::<BabyBearField, 4>(g, LiteralsOf { ts_mod: u64::MAX, run: literals_baby }, fixed(Kit::openvm(4)))
    }
}

// ---------------------------------------------------------------------------------------------
// Calls

#[derive(Clone, Debug)]
struct SimApc {
    len: usize,
    priority: usize,
    conds: Vec<Cond>,
    oc: OptimisticConstraints<u8, u64>,
}
impl Apc<SimState> for SimApc {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u8, u64> {
        &self.oc
    }
    fn cycle_count(&self) -> usize {
        self.len
    }
    fn priority(&self) -> usize {
        self.priority
    }
}

#[derive(Clone, Debug)]
struct Live {
    apc: usize,
    start: usize,
    done: bool,
    order: usize,
}

fn c23_history(g: &mut Gen) -> CaseResult {
    let steps = g.range(2, 24);
    let mut hist: Vec<SimState> = vec![];
    for _ in 0..=steps {
        let s = gen_state(g, hist.last());
        hist.push(s);
    }
    let napcs = g.range(1, 5);
    let levels = g.range(1, 4);
    let apcs: Vec<SimApc> = (0..napcs)
        .map(|_| {
            let len = g.range(1, 6);
            let conds = if g.chance(1, 2) {
                vec![]
            } else {
                let at = g.usize(hist.len());
                let to = (at + len + 1).min(hist.len());
                gen_conds(g, len, &hist[at..to])
            };
            SimApc {
                len,
                priority: g.usize(levels),
                oc: OptimisticConstraints::from_constraints(conds.clone()),
                conds,
            }
        })
        .collect();
    g.note(|| {
        format!(
            "apcs {:?}\nhistory {hist:?}",
            apcs.iter().map(|a| (a.len, a.priority, &a.conds)).collect::<Vec<_>>()
        )
    });
    let mut c: ApcCandidates<SimState, SimApc, (usize, usize)> = ApcCandidates::new(apcs.clone());
    let mut live: Vec<Live> = vec![];
    let mut all_calls: Vec<(usize, usize, usize)> = vec![];
    let mut order = 0;
    let eager = g.bool();
    // conditions decidable at step k of a candidate that starts at `start`
    let ok_at = |apc: usize, start: usize, now: usize| {
        apcs[apc]
            .conds
            .iter()
            .filter(|c| decidable(c) == now - start)
            .all(|c| holds(c, &hist[start..]))
    };
    for now in 0..=steps {
        let s = &hist[now];
        let snap = || (now, s.clk);
        if now > 0 {
            catch(|| c.check_conditions(s, snap)).map_err(panicked)?;
            live.retain(|l| l.done || ok_at(l.apc, l.start, now));
            for l in &mut live {
                if now - l.start == apcs[l.apc].len {
                    l.done = true;
                }
            }
        }
        let abort = now == steps || g.chance(1, 12);
        if abort {
            let mut got = c.abort_in_progress();
            let mut want: Vec<usize> = live.iter().filter(|l| !l.done).map(|l| l.apc).collect();
            got.sort();
            want.sort();
            ensure!(got == want, "aborted", "{got:?}, expected {want:?} at {now}");
            live.retain(|l| l.done);
        }
        if abort || eager || g.chance(1, 3) {
            let calls = catch(|| c.extract_calls()).map_err(panicked)?;
            g.note(|| format!("at {now}: {calls:?} of {live:?}"));
            if live.iter().any(|l| !l.done) {
                ensure!(calls.is_empty(), "early", "{calls:?} at {now} while in progress: {live:?}");
            } else {
                let range = |l: &Live| (hist[l.start].clk, hist[l.start + apcs[l.apc].len].clk);
                let overlap = |a: &Live, b: &Live| {
                    let (a, b) = (range(a), range(b));
                    a.0 < b.1 && b.0 < a.1
                };
                let better = |a: &Live, b: &Live| {
                    let key = |l: &Live| {
                        let r = range(l);
                        (apcs[l.apc].priority, r.1 - r.0, std::cmp::Reverse(l.order))
                    };
                    key(a) > key(b)
                };
                let mut kept: BTreeSet<usize> = BTreeSet::new();
                for call in &calls {
                    let m = live.iter().find(|l| {
                        !kept.contains(&l.order)
                            && l.apc == call.apc_id
                            && call.from == (l.start, hist[l.start].clk)
                            && call.to == (l.start + apcs[l.apc].len, range(l).1)
                    });
                    let Some(m) = m else {
                        return Err(Failure::new("no-such-run", format!("{call:?} at {now}, done: {live:?}")));
                    };
                    kept.insert(m.order);
                }
                for l in &live {
                    let rivals: Vec<&Live> =
                        live.iter().filter(|o| o.order != l.order && overlap(l, o)).collect();
                    if !rivals.is_empty() {
                        g.nontrivial();
                    }
                    if kept.contains(&l.order) {
                        ensure!(
                            rivals.iter().all(|o| !kept.contains(&o.order)),
                            "overlap",
                            "{calls:?} at {now}"
                        );
                    } else {
                        ensure!(
                            rivals.iter().any(|o| better(o, l)),
                            "lost",
                            "{l:?} dropped without a better rival at {now}: {live:?} -> {calls:?}"
                        );
                        g.label("dropped");
                    }
                    if rivals.iter().all(|o| better(l, o)) {
                        ensure!(
                            kept.contains(&l.order),
                            "not-preferred",
                            "{l:?} is the best of its rivals at {now}: {live:?} -> {calls:?}"
                        );
                    }
                }
                for call in &calls {
                    all_calls.push((call.apc_id, call.from.1, call.to.1));
                }
                if !calls.is_empty() {
                    g.label("calls");
                }
                live.clear();
            }
        }
        if now < steps {
            let tries = g.weighted(&[4, 4, 2, 1]);
            for _ in 0..tries {
                let apc = g.usize(napcs);
                // a call never starts inside a call that has been returned
                let r = catch(|| c.try_insert(s, apc, snap).is_ok()).map_err(panicked)?;
                let want = ok_at(apc, now, now);
                ensure!(r == want, "insert", "apc {apc} at {now}: {r}, expected {want}");
                if r {
                    live.push(Live { apc, start: now, done: false, order });
                    order += 1;
                }
            }
        }
    }
    for (i, a) in all_calls.iter().enumerate() {
        for b in &all_calls[i + 1..] {
            ensure!(a.2 <= b.1 || b.2 <= a.1, "overlap", "{a:?} and {b:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Empirical observations

type Classes = BTreeSet<BTreeSet<(usize, usize)>>;

fn cell((i, c): (usize, usize)) -> BlockCell {
    BlockCell::new(i, c)
}
/// Cells as (instruction, column), via the published encoding.
fn cells(p: &Partition<BlockCell>) -> Classes {
    p.to_classes()
        .into_iter()
        .map(|c| {
            c.into_iter()
                .map(|x| {
                    let v = serde_json::to_value(x).unwrap();
                    (v["instruction_idx"].as_u64().unwrap() as usize, v["column_idx"].as_u64().unwrap() as usize)
                })
                .collect()
        })
        .collect()
}

/// A labelling of the universe; equal labels are equivalent, None is a singleton.
fn gen_labels(g: &mut Gen, n: usize, prev: Option<&Vec<Option<usize>>>) -> Vec<Option<usize>> {
    let k = g.range(1, 4);
    (0..n)
        .map(|i| match prev {
            Some(p) if g.chance(9, 10) => p[i],
            _ => (!g.chance(1, 8)).then(|| g.usize(k)),
        })
        .collect()
}
fn classes_of<T: Ord + Clone>(universe: &[T], key: impl Fn(usize) -> Option<Vec<usize>>) -> BTreeSet<BTreeSet<T>> {
    let mut m: BTreeMap<Vec<usize>, BTreeSet<T>> = BTreeMap::new();
    for (i, x) in universe.iter().enumerate() {
        if let Some(k) = key(i) {
            m.entry(k).or_default().insert(x.clone());
        }
    }
    m.into_values().filter(|c| c.len() > 1).collect()
}
fn partition<T: Ord + Clone + std::hash::Hash>(classes: &BTreeSet<BTreeSet<T>>, g: &mut Gen) -> Partition<T> {
    let mut v: Vec<Vec<T>> = classes
        .iter()
        .map(|c| {
            let mut c: Vec<T> = c.iter().cloned().collect();
            g.shuffle(&mut c);
            c
        })
        .collect();
    g.shuffle(&mut v);
    v.into_iter().collect()
}
fn sets<T: Ord + Clone + std::hash::Hash>(p: &Partition<T>) -> BTreeSet<BTreeSet<T>> {
    p.to_classes().into_iter().map(|c| c.into_iter().collect()).collect()
}

fn c25_partition(g: &mut Gen) -> CaseResult {
    let n = g.range(1, 9);
    // sometimes more than one chunk of the parallel reduction
    let k = match g.usize(8) {
        0 => g.range(60, 200),
        1 => g.range(64, 66),
        _ => g.range(1, 6),
    };
    let mut labels: Vec<Vec<Option<usize>>> = vec![];
    for _ in 0..k {
        let l = gen_labels(g, n, labels.last());
        labels.push(l);
    }
    let universe: Vec<u32> = (0..n as u32).map(|i| i * 3).collect();
    let each: Vec<BTreeSet<BTreeSet<u32>>> =
        labels.iter().map(|l| classes_of(&universe, |i| l[i].map(|x| vec![x]))).collect();
    g.note(|| format!("{each:?}"));
    let want = classes_of(&universe, |i| labels.iter().map(|l| l[i]).collect::<Option<Vec<_>>>());
    if want != each[0] {
        g.nontrivial();
    }
    let parts: Vec<Partition<u32>> = each.iter().map(|c| partition(c, g)).collect();
    for (p, c) in parts.iter().zip(&each).take(5) {
        ensure_eq!(sets(p), *c, "collect");
    }
    let mut order: Vec<usize> = (0..k).collect();
    g.shuffle(&mut order);
    let shuffled: Vec<Partition<u32>> = order.iter().map(|i| parts[*i].clone()).collect();
    let r = catch(|| Partition::intersect_many(shuffled.clone())).map_err(panicked)?;
    ensure!(sets(&r) == want, "intersect", "{:?}, expected {want:?}", sets(&r));
    let r = catch(|| Partition::parallel_intersect(shuffled.clone().into_par_iter())).map_err(panicked)?;
    ensure!(sets(&r) == want, "parallel-intersect", "{:?}, expected {want:?}", sets(&r));
    ensure!(r == Partition::intersect_many(parts.clone()), "equality", "different order, different result");
    // serialisation
    let text = serde_json::to_string(&r).unwrap();
    let back: Partition<u32> = serde_json::from_str(&text).map_err(|e| Failure::new("serialisation", e.to_string()))?;
    ensure!(sets(&back) == want, "serialisation", "{text}");
    // disjoint union and renaming
    let a = parts[0].clone().map_elements(|x| (0u8, x));
    let b = parts[k - 1].clone().map_elements(|x| (1u8, x));
    let mut both: BTreeSet<BTreeSet<(u8, u32)>> =
        each[0].iter().map(|c| c.iter().map(|x| (0, *x)).collect()).collect();
    both.extend(each[k - 1].iter().map(|c| c.iter().map(|x| (1, *x)).collect::<BTreeSet<_>>()));
    ensure_eq!(sets(&a.combine(b)), both, "combine");
    Ok(())
}

/// Everything known about one run of a program.
#[derive(Clone, Debug, Default, PartialEq)]
struct Facts {
    ranges: BTreeMap<u32, Vec<(u32, u32)>>,
    /// block -> labels of its cells
    labels: BTreeMap<u64, Vec<Option<usize>>>,
    counts: BTreeMap<u32, u64>,
}

struct World {
    /// start pc, number of instructions
    blocks: Vec<(u64, usize)>,
    /// columns per pc
    cols: BTreeMap<u32, usize>,
    step: u64,
}
impl World {
    fn generate(g: &mut Gen, step: u64) -> World {
        let mut blocks = vec![];
        let mut cols = BTreeMap::new();
        let mut pc = step * g.below(5);
        for _ in 0..g.range(1, 3) {
            let len = g.range(1, 3);
            blocks.push((pc, len));
            for _ in 0..len {
                cols.insert(pc as u32, g.range(1, 3));
                pc += step;
            }
            pc += step * g.below(2);
        }
        World { blocks, cols, step }
    }
    fn universe(&self, b: usize) -> Vec<(usize, usize)> {
        let (start, len) = self.blocks[b];
        (0..len)
            .flat_map(|i| (0..self.cols[&((start + i as u64 * self.step) as u32)]).map(move |c| (i, c)))
            .collect()
    }
    fn run(&self, g: &mut Gen, prev: Option<&Facts>) -> Facts {
        let mut f = Facts::default();
        for (b, (start, len)) in self.blocks.iter().enumerate() {
            if g.chance(1, 6) {
                // not executed
                continue;
            }
            let times = if g.chance(1, 2) { g.below(4) + 1 } else { 48 + g.below(4) };
            for i in 0..*len {
                let pc = (start + i as u64 * self.step) as u32;
                let r = (0..self.cols[&pc])
                    .map(|c| {
                        if let Some(r) = prev.and_then(|p| p.ranges.get(&pc)).filter(|_| g.chance(2, 3)) {
                            return r[c];
                        }
                        let lo = g.below(5) as u32;
                        (lo, lo + if g.bool() { 0 } else { g.below(300) as u32 })
                    })
                    .collect();
                f.ranges.insert(pc, r);
                f.counts.insert(pc, times);
            }
            let n = self.universe(b).len();
            let l = gen_labels(g, n, prev.and_then(|p| p.labels.get(start)));
            f.labels.insert(*start, l);
        }
        f
    }
    fn debug(&self) -> DebugInfo {
        DebugInfo {
            air_id_by_pc: self.cols.iter().map(|(pc, c)| (*pc, *c)).collect(),
            column_names_by_air_id: self
                .cols
                .values()
                .map(|c| (*c, (0..*c).map(|i| format!("x{i}")).collect()))
                .collect(),
        }
    }
    fn constraints(&self, g: &mut Gen, f: &Facts) -> EmpiricalConstraints {
        let mut d = self.debug();
        // what was not executed is not known
        d.air_id_by_pc.retain(|pc, _| f.counts.contains_key(pc));
        EmpiricalConstraints {
            column_ranges_by_pc: f.ranges.clone(),
            equivalence_classes_by_block: self
                .blocks
                .iter()
                .enumerate()
                .filter_map(|(b, (start, _))| {
                    let l = f.labels.get(start)?;
                    let c = classes_of(&self.universe(b), |i| l[i].map(|x| vec![x]));
                    let p: Partition<(usize, usize)> = partition(&c, g);
                    Some((*start, p.map_elements(cell)))
                })
                .collect(),
            debug_info: d,
            pc_counts: f.counts.clone(),
        }
    }
}

struct Merged {
    ranges: BTreeMap<u32, Vec<(u32, u32)>>,
    classes: BTreeMap<u64, Classes>,
    counts: BTreeMap<u32, u64>,
}

fn merge(w: &World, runs: &[Facts]) -> Merged {
    let mut m = Merged { ranges: BTreeMap::new(), classes: BTreeMap::new(), counts: BTreeMap::new() };
    for (pc, cols) in &w.cols {
        let seen: Vec<&Vec<(u32, u32)>> = runs.iter().filter_map(|r| r.ranges.get(pc)).collect();
        if !seen.is_empty() {
            m.ranges.insert(
                *pc,
                (0..*cols)
                    .map(|c| (seen.iter().map(|r| r[c].0).min().unwrap(), seen.iter().map(|r| r[c].1).max().unwrap()))
                    .collect(),
            );
            m.counts.insert(*pc, runs.iter().filter_map(|r| r.counts.get(pc)).sum());
        }
    }
    for (b, (start, _)) in w.blocks.iter().enumerate() {
        let seen: Vec<&Vec<Option<usize>>> = runs.iter().filter_map(|r| r.labels.get(start)).collect();
        if !seen.is_empty() {
            let u = w.universe(b);
            m.classes.insert(*start, classes_of(&u, |i| seen.iter().map(|l| l[i]).collect::<Option<Vec<_>>>()));
        }
    }
    m
}

fn tree(g: &mut Gen, mut v: Vec<EmpiricalConstraints>) -> EmpiricalConstraints {
    while v.len() > 1 {
        let i = g.usize(v.len());
        let mut a = v.swap_remove(i);
        let j = g.usize(v.len());
        let b = v.swap_remove(j);
        a.combine_with(b);
        v.push(a);
    }
    v.pop().unwrap_or_default()
}

fn check_merged(e: &EmpiricalConstraints, m: &Merged, what: &'static str) -> CaseResult {
    ensure_eq!(e.column_ranges_by_pc, m.ranges, format!("{what}-ranges"));
    let c: BTreeMap<u64, Classes> = e.equivalence_classes_by_block.iter().map(|(k, p)| (*k, cells(p))).collect();
    ensure_eq!(c, m.classes, format!("{what}-classes"));
    ensure_eq!(e.pc_counts, m.counts, format!("{what}-counts"));
    Ok(())
}

fn gen_world(g: &mut Gen) -> (World, Vec<Facts>) {
    let w = World::generate(g, 4);
    let mut runs: Vec<Facts> = vec![];
    for _ in 0..g.range(1, 5) {
        let r = w.run(g, runs.last());
        runs.push(r);
    }
    (w, runs)
}

fn c25_merge(g: &mut Gen) -> CaseResult {
    let (w, runs) = gen_world(g);
    g.note(|| format!("{:?} {:?}\n{runs:?}", w.blocks, w.cols));
    let m = merge(&w, &runs);
    if runs.len() > 1 && m.classes.values().any(|c| !c.is_empty()) {
        g.nontrivial();
    }
    let parts: Vec<_> = runs.iter().map(|r| w.constraints(g, r)).collect();
    let e = catch(|| tree(g, parts)).map_err(panicked)?;
    check_merged(&e, &m, "merge")?;
    let mut d = w.debug();
    d.air_id_by_pc.retain(|pc, _| m.counts.contains_key(pc));
    ensure_eq!(e.debug_info.air_id_by_pc, d.air_id_by_pc, "debug-info");
    // serialisation
    let text = serde_json::to_string(&e).unwrap();
    let back: EmpiricalConstraints =
        serde_json::from_str(&text).map_err(|e| Failure::new("serialisation", e.to_string()))?;
    check_merged(&back, &m, "serialised")?;
    // rarely executed code is ignored
    let t = optimistic_precompile_config().execution_count_threshold;
    let e = back.apply_pc_threshold();
    let often = |pc: u32| m.counts.get(&pc).is_some_and(|c| *c >= t);
    let mt = Merged {
        ranges: m.ranges.iter().filter(|(pc, _)| often(**pc)).map(|(k, v)| (*k, v.clone())).collect(),
        classes: m.classes.iter().filter(|(pc, _)| often(**pc as u32)).map(|(k, v)| (*k, v.clone())).collect(),
        counts: m.counts.clone(),
    };
    if !mt.ranges.is_empty() {
        g.label("above-threshold");
    }
    check_merged(&e, &mt, "threshold")
}

fn c25_block(g: &mut Gen) -> CaseResult {
    let (w, runs) = gen_world(g);
    let m = merge(&w, &runs);
    let parts: Vec<_> = runs.iter().map(|r| w.constraints(g, r)).collect();
    let e = catch(|| tree(g, parts)).map_err(panicked)?;
    // a superblock, possibly with repetitions
    let seq: Vec<usize> = (0..g.range(1, 4)).map(|_| g.usize(w.blocks.len())).collect();
    let block = SuperBlock::from(
        seq.iter()
            .map(|b| BasicBlock {
                start_pc: w.blocks[*b].0,
                instructions: (0..w.blocks[*b].1).map(|_| StepIns::<4>(Ins::new(1, [0; 3]))).collect(),
            })
            .collect::<Vec<_>>(),
    );
    g.note(|| format!("{:?} {:?} sequence {seq:?}\n{runs:?}", w.blocks, w.cols));
    if seq.len() > 1 {
        g.nontrivial();
    }
    // reference: per instruction
    let mut pcs = vec![];
    let mut classes: Classes = BTreeSet::new();
    for b in &seq {
        let (start, len) = w.blocks[*b];
        let off = pcs.len();
        for c in m.classes.get(&start).into_iter().flatten() {
            classes.insert(c.iter().map(|(i, c)| (i + off, *c)).collect());
        }
        pcs.extend((0..len).map(|i| (start + i as u64 * w.step) as u32));
    }
    let mut ranges: BTreeMap<(usize, usize), (u32, u32)> = BTreeMap::new();
    for (i, pc) in pcs.iter().enumerate() {
        for (c, r) in m.ranges.get(pc).into_iter().flatten().enumerate() {
            ranges.insert((i, c), *r);
        }
    }
    let mut be = catch(|| e.for_block(&block)).map_err(panicked)?;
    // restrict to a random set of cells, possibly in two steps
    for _ in 0..g.usize(3) {
        let hidden: BTreeSet<(usize, usize)> = ranges
            .keys()
            .copied()
            .filter(|_| g.chance(1, 4))
            .collect();
        g.note(|| format!("without {hidden:?}"));
        let hidden_cells: BTreeSet<BlockCell> = hidden.iter().map(|x| cell(*x)).collect();
        be = catch(|| be.filtered(|c| !hidden_cells.contains(c))).map_err(panicked)?;
        // a column range is shared by all instructions with this pc
        let gone: BTreeSet<(u32, usize)> = hidden.iter().map(|(i, c)| (pcs[*i], *c)).collect();
        ranges.retain(|(i, c), _| !gone.contains(&(pcs[*i], *c)));
        classes = classes
            .into_iter()
            .map(|c| c.difference(&hidden).copied().collect::<BTreeSet<_>>())
            .filter(|c| c.len() > 1)
            .collect();
        g.label("filtered");
    }
    let mut got = BTreeMap::new();
    for (i, pc) in pcs.iter().enumerate() {
        for (c, r) in be.column_ranges_by_pc.get(pc).into_iter().flatten() {
            got.insert((i, *c), *r);
        }
    }
    ensure!(got == ranges, "block-ranges", "{got:?}, expected {ranges:?}");
    ensure!(
        be.column_ranges_by_pc.keys().all(|p| pcs.contains(p)),
        "block-ranges",
        "{:?}",
        be.column_ranges_by_pc
    );
    let c = cells(&be.equivalence_classes);
    ensure!(c == classes, "block-classes", "{c:?}, expected {classes:?}");
    // as constraints
    let mut next = g.below(5);
    let mut refs: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    let mut subs: Vec<Vec<u64>> = vec![];
    let mut columns = vec![];
    for (i, pc) in pcs.iter().enumerate() {
        let mut s = vec![];
        for c in 0..w.cols[pc] {
            refs.insert(next, (i, c));
            s.push(next);
            columns.push(AlgebraicReference { name: Arc::new(format!("x{c}_{i}")), id: next });
            next += 1 + g.below(2);
        }
        subs.push(s);
    }
    g.shuffle(&mut columns);
    let mapper = BlockCellAlgebraicReferenceMapper::new(&subs, columns.into_iter());
    for (id, (i, c)) in &refs {
        ensure!(
            mapper.get_algebraic_reference(&BlockCell::new(*i, *c)).map(|r| r.id) == Some(*id),
            "reference",
            "cell {i},{c}"
        );
    }
    ensure!(!mapper.has_block_cell(&BlockCell::new(pcs.len(), 0)), "reference", "cell outside");
    let cs: Vec<EqualityConstraint<BabyBearField>> =
        catch(|| ConstraintGenerator::<BabyAdapter>::new(be, mapper, &block).generate_constraints()).map_err(panicked)?;
    let mut values: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    // union of the equalities
    let mut group: BTreeMap<(usize, usize), usize> = refs.values().enumerate().map(|(k, x)| (*x, k)).collect();
    for c in &cs {
        match (&c.left, &c.right) {
            (EqualityExpression::Reference(a), EqualityExpression::Number(n))
            | (EqualityExpression::Number(n), EqualityExpression::Reference(a)) => {
                let v = n.to_integer().try_into_u64().unwrap();
                let old = values.insert(refs[&a.id], v);
                ensure!(old.is_none_or(|o| o == v), "two-values", "{:?}", refs[&a.id]);
            }
            (EqualityExpression::Reference(a), EqualityExpression::Reference(b)) => {
                let (x, y) = (group[&refs[&a.id]], group[&refs[&b.id]]);
                for v in group.values_mut() {
                    if *v == y {
                        *v = x;
                    }
                }
            }
            _ => return Err(Failure::new("constant-constraint", "")),
        }
    }
    let want: BTreeMap<(usize, usize), u64> =
        ranges.iter().filter(|(_, r)| r.0 == r.1).map(|(k, r)| (*k, r.0 as u64)).collect();
    ensure!(values == want, "value-constraints", "{values:?}, expected {want:?}");
    let u: Vec<(usize, usize)> = group.keys().copied().collect();
    let got = classes_of(&u, |i| Some(vec![group[&u[i]]]));
    ensure!(got == classes, "equality-constraints", "{got:?}, expected {classes:?}");
    // as conditions on the execution
    let lits: BTreeMap<AlgebraicReference, OptimisticLiteral<Vec<BabyBearField>>> = refs
        .iter()
        .map(|(id, (i, c))| {
            (
                AlgebraicReference { name: Arc::new(format!("x{c}_{i}")), id: *id },
                OptimisticLiteral {
                    instr_idx: *i,
                    val: LocalOptimisticLiteral::RegisterLimb(vec![BabyBearField::from(*c as u64)], 0),
                },
            )
        })
        .collect();
    let ex = catch(|| generate_execution_constraints(&cs, &lits)).map_err(panicked)?;
    ensure_eq!(ex.len(), cs.len(), "execution-constraints");
    for (x, c) in ex.iter().zip(&cs) {
        for (x, c) in [(&x.left, &c.left), (&x.right, &c.right)] {
            let same = match (x, c) {
                (OptimisticExpression::Number(a), EqualityExpression::Number(b)) => {
                    *a as u64 == b.to_integer().try_into_u64().unwrap()
                }
                (OptimisticExpression::Literal(a), EqualityExpression::Reference(b)) => *a == lits[b],
                _ => false,
            };
            ensure!(same, "execution-constraints", "{x:?}");
        }
    }
    Ok(())
}

fn main() {
    run(vec![
        Property {
            id: "C23",
            rule: "at some extraction two finished candidates overlap",
            assumptions: &[
                "the caller advances the execution one step at a time: check_conditions, extraction, insertion",
                "blocks have at least one instruction; conditions refer to steps of the block (its end included)",
            ],
            subs: vec![Sub { name: "history", f: c23_history, quick: 2_000_000, thorough: 80_000_000 }],
        },
        Property {
            id: "C24",
            rule: "history: a condition compares two different steps; superblock: several blocks; literals: a register literal was found",
            assumptions: &["conditions refer to steps of the block (its end included)", "literals: registers only (the address space the execution state can read)"],
            subs: vec![
                Sub { name: "history", f: c24_history, quick: 3_000_000, thorough: 100_000_000 },
                Sub { name: "superblock", f: c24_superblock, quick: 20_000, thorough: 1_000_000 },
                Sub { name: "literals", f: c24_lits, quick: 10_000, thorough: 500_000 },
            ],
        },
        Property {
            id: "C25",
            rule: "partition: the intersection differs from the first; merge: several runs with a remaining equivalence; block: several basic blocks",
            assumptions: &["all runs agree on the AIR of an instruction, so on the number of its columns"],
            subs: vec![
                Sub { name: "partition", f: c25_partition, quick: 300_000, thorough: 10_000_000 },
                Sub { name: "merge", f: c25_merge, quick: 300_000, thorough: 10_000_000 },
                Sub { name: "block", f: c25_block, quick: 500_000, thorough: 20_000_000 },
            ],
        },
    ]);
}
