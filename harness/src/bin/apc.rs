//! C18, C19, C26: built precompiles, their traces, their serialised forms.
use powdr_autoprecompiles::adapter::AdapterVmConfig;
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::expression::{
    AlgebraicEvaluator, ConcreteBusInteraction, MappingRowEvaluator,
};
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::symbolic_machine_generator::convert_machine_field_type;
use powdr_autoprecompiles::trace_handler::{generate_trace, TraceTrait};
use powdr_autoprecompiles::{build, DegreeBound, VmConfig};
use powdr_constraint_solver::constraint_system::ComputationMethod;
use powdr_number::{BabyBearField, FieldElement, LargeInt};
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use powdr_verif_harness::case::*;
use powdr_verif_harness::circuit::*;
use powdr_verif_harness::engine::{catch, main as run, CaseResult, Failure, Gen, Property, Sub};
use powdr_verif_harness::model::*;
use powdr_verif_harness::tiny::Fp;
use powdr_verif_harness::vm::*;
use powdr_verif_harness::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;

fn panicked(e: String) -> Failure {
    Failure::new("panic", e)
}

struct Built<T> {
    machine: SymbolicMachine<T>,
    /// for every instruction, (column, id)
    subs: Vec<Vec<(usize, u64)>>,
    /// index of every column
    index: BTreeMap<u64, usize>,
    /// for every call, the row filled from the original rows
    rows: Vec<Vec<T>>,
}

struct Table<F> {
    width: usize,
    values: Vec<F>,
}
impl<F: Send + Sync> TraceTrait<F> for Table<F> {
    type Values = Vec<F>;
    fn width(&self) -> usize {
        self.width
    }
    fn values(&self) -> &Vec<F> {
        &self.values
    }
}

trait World {
    type T: FieldElement;
    type Sem: BusSem<Self::T>;
    fn kit(g: &mut Gen) -> Kit;
    fn sem(kit: &Kit) -> Self::Sem;
    fn compile(case: &Case<Self::T>, bound: DegreeBound) -> Result<Result<Built<Self::T>, String>, Failure>;
}

macro_rules! world {
    (($($gen:tt)*), $world:ty, $adapter:ty, $field:ty, $f:ty, $step:expr, $sem:ty, $kit:expr, $mksem:expr, $conv:expr, $back:expr, $buses:expr, $map:expr) => {
        impl $($gen)* World for $world {
            type T = $field;
            type Sem = $sem;
            fn kit(g: &mut Gen) -> Kit {
                #[allow(clippy::redundant_closure_call)]
                $kit(g)
            }
            fn sem(kit: &Kit) -> $sem {
                $mksem(kit)
            }
            fn compile(case: &Case<$field>, bound: DegreeBound) -> Result<Result<Built<$field>, String>, Failure> {
                let h: Handler<$f, $step> = handler(&case.vm, &$conv, bound);
                let cfg: AdapterVmConfig<$adapter> = VmConfig {
                    instruction_handler: &h,
                    bus_interaction_handler: $buses(&case.vm.kit),
                    bus_map: $map,
                };
                let block = superblock::<$step>(&case.blocks);
                let apc = catch(|| {
                    build::<$adapter>(block, cfg, bound, ExportOptions::default(), &EmpiricalConstraints::default())
                })
                .map_err(panicked)?;
                let apc = match apc {
                    Ok(a) => a,
                    Err(e) => return Ok(Err(format!("{e:?}"))),
                };
                // the rows of the original tables, in order of execution; instructions of which no
                // column is left leave no row
                let mut tables: HashMap<usize, Table<$f>> = HashMap::new();
                for call in &case.calls {
                    for ((row, (_, ins)), subs) in call.iter().zip(case.blocks.concat()).zip(&apc.subs) {
                        if subs.is_empty() {
                            continue;
                        }
                        let air = h.air_of_op[&ins.op];
                        let t = tables.entry(air).or_insert_with(|| Table { width: row.len(), values: vec![] });
                        t.values.extend(row.iter().map(|x| $conv(*x)));
                    }
                }
                let (index, rows) = catch(|| {
                    let t = generate_trace(&tables, &h, case.calls.len(), &apc);
                    let width = t.apc_poly_id_to_index.len();
                    let rows: Vec<Vec<$field>> = t
                        .dummy_values
                        .iter()
                        .map(|insns| {
                            let mut row = vec![<$field>::from(0u64); width];
                            assert_eq!(insns.len(), t.dummy_trace_index_to_apc_index_by_instruction.len());
                            for (r, map) in insns.iter().zip(&t.dummy_trace_index_to_apc_index_by_instruction) {
                                let data = &r.data[r.start..r.start + r.length];
                                for (from, to) in map {
                                    row[*to] = $back(data[*from].clone());
                                }
                            }
                            row
                        })
                        .collect();
                    assert_eq!(t.columns_to_compute.len(), apc.machine.derived_columns.len());
                    (t.apc_poly_id_to_index.clone(), rows)
                })
                .map_err(panicked)?;
                Ok(Ok(Built {
                    subs: apc
                        .subs
                        .iter()
                        .map(|s| s.iter().map(|s| (s.original_poly_index, s.apc_poly_id)).collect())
                        .collect(),
                    machine: convert_machine_field_type(apc.machine, &$back),
                    index,
                    rows,
                }))
            }
        }
    };
}

struct Tiny<const P: u32, const B: u32>;
struct Open<const L: usize>;

fn baby(x: BabyBearField) -> Baby {
    Baby(x.to_integer().try_into_u32().unwrap())
}
fn unbaby(x: Baby) -> BabyBearField {
    BabyBearField::from(x.0 as u64)
}
fn same<T>(x: T) -> T {
    x
}

world!(
    (<const P: u32, const B: u32>),
    Tiny<P, B>,
    TinyAdapter<P>,
    Fp<P>,
    Fp<P>,
    1,
    TinyBuses<Fp<P>>,
    |_: &mut Gen| Kit::tiny(B),
    |k: &Kit| TinyBuses::new(k.bw, true),
    same,
    same,
    |k: &Kit| TinyBuses::new(k.bw, true),
    tiny_bus_map()
);
world!(
    (<const L: usize>),
    Open<L>,
    BabyAdapter,
    BabyBearField,
    Baby,
    4,
    OpenVmSem<BabyBearField>,
    |_: &mut Gen| Kit::openvm(L),
    |_: &Kit| OpenVmSem(PhantomData),
    baby,
    unbaby,
    |_: &Kit| OpenVmBusInteractionHandler::<BabyBearField>::default(),
    baby_bus_map()
);

/// The circuit, its columns renamed to those of the block (surviving columns) or to new ones.
struct View<T> {
    trans: Trans<T>,
    /// new name of every column
    names: BTreeMap<u64, Var>,
    valid: Var,
}

fn rename<T: FieldElement>(e: &Ex<T>, f: &impl Fn(Var) -> Var) -> Ex<T> {
    match e {
        Ex::C(c) => Ex::C(*c),
        Ex::V(v) => Ex::V(f(*v)),
        Ex::Add(a, b) => rename(a, f) + rename(b, f),
        Ex::Sub(a, b) => rename(a, f) - rename(b, f),
        Ex::Mul(a, b) => rename(a, f) * rename(b, f),
        Ex::Neg(a) => -rename(a, f),
    }
}

fn view<T: FieldElement>(case: &Case<T>, b: &Built<T>) -> Result<View<T>, Failure> {
    let t = Trans::of_machine(&b.machine);
    let mut names: BTreeMap<u64, Var> = BTreeMap::new();
    ensure_eq!(b.subs.len(), case.offsets.len(), "subs-length");
    for (i, s) in b.subs.iter().enumerate() {
        for (c, id) in s {
            ensure!(*c < case.calls[0][i].len(), "sub-column", "instruction {i} has no column {c}");
            let v = Var(case.offsets[i] + *c as u32);
            ensure!(
                names.insert(*id, v).is_none(),
                "sub-twice",
                "column {id} stands for two original columns: {:?}",
                b.subs
            );
        }
    }
    let vars: BTreeSet<Var> = names.values().copied().collect();
    ensure_eq!(vars.len(), names.len(), "sub-shared");
    let total: u32 = case.sys.vars().iter().map(|v| v.0 + 1).max().unwrap_or(0);
    let mut next = total;
    for (v, _) in &t.derived {
        ensure!(
            names.insert(v.0 as u64, Var(next)).is_none(),
            "derived-original",
            "column {v} is both original and derived"
        );
        next += 1;
    }
    for v in t.sys.vars() {
        ensure!(
            names.contains_key(&(v.0 as u64)),
            "column-without-source",
            "column {v} is neither taken from an original row nor derived:\n{t}\n{:?}",
            b.subs
        );
    }
    let f = |v: Var| names.get(&(v.0 as u64)).copied().unwrap_or(Var(1_000_000 + v.0));
    let sys = Sys {
        alg: t.sys.alg.iter().map(|e| rename(e, &f)).collect(),
        bus: t
            .sys
            .bus
            .iter()
            .map(|b| Bus {
                id: b.id.clone(),
                mult: rename(&b.mult, &f),
                args: b.args.iter().map(|a| rename(a, &f)).collect(),
            })
            .collect(),
    };
    let derived: Vec<_> = t
        .derived
        .iter()
        .map(|(v, m)| {
            (f(*v), match m {
                Method::Const(c) => Method::Const(*c),
                Method::Quot(a, b) => Method::Quot(rename(a, &f), rename(b, &f)),
            })
        })
        .collect();
    // the validity flag is the last derived column
    let Some((valid, Method::Const(c))) = derived.last() else {
        return Err(Failure::new("no-flag", format!("{:?}", derived.last())));
    };
    ensure!(*c == T::one(), "no-flag", "validity flag is computed as {c}");
    let valid = *valid;
    Ok(View { trans: Trans { sys, derived }, names, valid })
}

fn compile<W: World>(g: &mut Gen, case: &Case<W::T>, sem: &W::Sem) -> Result<Option<(Built<W::T>, DegreeBound)>, Failure> {
    let bound = gen_bound(g, &case.sys);
    g.note(|| format!("degree bound {}/{}\n{}", bound.identities, bound.bus_interactions, case.show()));
    let w = case.witness(0);
    if !case.holds(&w, sem) {
        g.label("not-executable");
        return Ok(None);
    }
    match W::compile(case, bound)? {
        Ok(b) => {
            g.note(|| format!("precompile:\n{}\nsubs {:?}", Trans::of_machine(&b.machine), b.subs));
            Ok(Some((b, bound)))
        }
        Err(e) => Err(Failure::new("build-error", format!("{e} for a block that has an execution"))),
    }
}

fn c18<W: World>(g: &mut Gen, len: usize, cols: usize, calls: usize, enumerate: bool) -> CaseResult {
    let kit = W::kit(g);
    let sem = W::sem(&kit);
    let case: Case<W::T> = gen_case(g, kit, len, cols, calls);
    let Some((built, bound)) = compile::<W>(g, &case, &sem)? else { return Ok(()) };
    let v = view(&case, &built)?;
    let zero = <W::T as num_traits::Zero>::zero();
    let one = W::T::from(1u64);
    // degrees
    let (a, b) = degrees(&v.trans.sys);
    ensure!(
        a <= bound.identities.max(2) && b <= bound.bus_interactions,
        "degree",
        "degrees {a}/{b}, bound {}/{}:\n{}",
        bound.identities,
        bound.bus_interactions,
        v.trans
    );
    let pair = Pair::new(&case.sys, &v.trans)?;
    let n = pair.ix.vars.len();
    let flag = pair.ix.of[&v.valid];
    if pair.opt_vars.len() < pair.orig_vars.len() {
        g.nontrivial();
    }
    let silent = |s: &[W::T]| -> CaseResult {
        for (i, b) in pair.opt.bus.iter().enumerate() {
            ensure!(
                b.mult.eval(s) == zero,
                "padding-sends",
                "row {} with the flag off sends on interaction {i}\n{}",
                pair.show(s, &pair.opt_vars),
                v.trans
            );
        }
        Ok(())
    };
    // padding
    let pad = vec![zero; n];
    if let Some(x) = pair.opt.violated(&pad, &sem) {
        return Err(Failure::new("padding-rejected", format!("the zero row violates {x}\n{}", v.trans)));
    }
    silent(&pad)?;
    // executions
    for i in 0..case.calls.len() {
        let w = case.witness(i);
        if !case.holds(&w, &sem) {
            continue;
        }
        let w: Vec<W::T> = pair.ix.vars.iter().map(|v| w.get(v).copied().unwrap_or(zero)).collect();
        pair.complete_for(&w, &sem)?;
        // flags other than zero and one, partly invalid rows
        let r = pair.derive(&w);
        ensure!(r[flag] == one, "flag", "flag is {}", r[flag]);
        for k in 0..6 {
            let mut s = r.clone();
            s[flag] = match k {
                0 => zero,
                1 => W::T::from(2u64),
                2 => -one,
                _ => W::T::from(g.below(2)),
            };
            if k > 2 {
                let vs: Vec<usize> = pair.opt_vars.iter().copied().collect();
                for _ in 0..1 + g.usize(3) {
                    let x = vs[g.usize(vs.len())];
                    if x != flag {
                        s[x] = if g.bool() { zero } else { W::T::from(g.below(4)) };
                    }
                }
            }
            let ok = pair.opt.satisfied(&s, &sem);
            if !ok {
                continue;
            }
            ensure!(s[flag] == zero || s[flag] == one, "flag-value", "accepts {}", pair.show(&s, &pair.opt_vars));
            if s[flag] == zero {
                g.label("accepted-padding");
                silent(&s)?;
            }
        }
    }
    if !enumerate {
        return Ok(());
    }
    let p = W::T::modulus_u64();
    let limit = 100_000;
    // flag off
    let off: BTreeMap<usize, W::T> = [(flag, zero)].into();
    if let Some(sols) = pair.opt.solutions_fixing(p, &sem, limit, &off, 5_000) {
        g.label("padding-enumerated");
        for s in &sols {
            silent(s)?;
        }
    }
    for f in [2u64, 3, p - 1] {
        let fix: BTreeMap<usize, W::T> = [(flag, W::T::from(f))].into();
        if let Some(sols) = pair.opt.solutions_fixing(p, &sem, limit, &fix, 1) {
            ensure!(sols.is_empty(), "flag-value", "accepts flag {f}");
        }
    }
    // flag on: all executions, all rows
    let ts = case.calls[0][0][1];
    let t = pair.ix.of[&Var(case.offsets[0] + 1)];
    let fix: BTreeMap<usize, W::T> = [(t, ts)].into();
    if let Some(sols) = pair.orig.solutions_fixing(p, &sem, limit, &fix, 3_000) {
        g.label("executions-enumerated");
        for w in &sols {
            if honest(&pair.orig, w) {
                pair.complete_for(w, &sem)?;
            }
        }
    }
    let mut fix: BTreeMap<usize, W::T> = [(flag, one)].into();
    if pair.opt_vars.contains(&t) {
        fix.insert(t, ts);
    }
    let Some(sols) = pair.opt.solutions_fixing(p, &sem, limit, &fix, 5_000) else { return Ok(()) };
    g.label("rows-enumerated");
    let mut by_effect = BTreeMap::new();
    for s in &sols {
        by_effect.entry(pair.opt.effect(s, &sem)).or_insert(s);
    }
    let n = by_effect.len();
    let take = 25;
    let mut known = None;
    for (i, (eff, s)) in by_effect.into_iter().enumerate() {
        if n > take && i % n.div_ceil(take) != 0 {
            continue;
        }
        match pair.achievable(s, p, &sem, 30_000) {
            Some(true) => {}
            None => break,
            Some(false) => {
                let merge = is_cancelling_merge(&v.trans.sys, &|x| s[pair.ix.of[&x]]);
                let f = Failure::new(
                    if merge { "circular-range-merge" } else { "new-behaviour" },
                    format!("row {} with effect {eff:?} is no execution of the block", pair.show(s, &pair.opt_vars)),
                );
                if !merge {
                    return Err(f);
                }
                known = Some(f);
            }
        }
    }
    match known {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

fn c18_tiny(g: &mut Gen) -> CaseResult {
    let len = g.range(1, 3);
    match g.usize(4) {
        0 => c18::<Tiny<23, 1>>(g, len, 12, 2, true),
        1 => c18::<Tiny<37, 2>>(g, len, 12, 2, true),
        2 => c18::<Tiny<61, 2>>(g, len, 14, 2, true),
        _ => c18::<Tiny<61, 3>>(g, len, 14, 2, true),
    }
}

fn c18_openvm(g: &mut Gen) -> CaseResult {
    let len = g.range(1, 6);
    match g.usize(2) {
        0 => c18::<Open<1>>(g, len, 30, 3, false),
        _ => c18::<Open<4>>(g, len, 40, 3, false),
    }
}

fn c19<W: World>(g: &mut Gen, len: usize, cols: usize, calls: usize) -> CaseResult {
    let kit = W::kit(g);
    let sem = W::sem(&kit);
    let case: Case<W::T> = gen_case(g, kit, len, cols, calls);
    let Some((built, _)) = compile::<W>(g, &case, &sem)? else { return Ok(()) };
    let v = view(&case, &built)?;
    let pair = Pair::new(&case.sys, &v.trans)?;
    let airs: Vec<usize> = case.blocks.concat().iter().map(|(_, i)| case.vm.air_of(i.op)).collect();
    let kept: Vec<usize> = airs.iter().zip(&built.subs).filter(|(_, s)| !s.is_empty()).map(|(a, _)| *a).collect();
    let distinct: BTreeSet<usize> = kept.iter().copied().collect();
    if case.calls.len() > 1 && distinct.len() < kept.len() {
        g.nontrivial();
    }
    if kept.len() < airs.len() {
        g.label("instruction-without-columns");
    }
    ensure_eq!(built.rows.len(), case.calls.len(), "row-count");
    // every column has its place
    let ids: BTreeSet<u64> = built.machine.main_columns().map(|c| c.id).collect();
    ensure_eq!(built.index.keys().copied().collect::<BTreeSet<_>>(), ids, "columns");
    ensure_eq!(
        built.index.values().copied().collect::<BTreeSet<_>>(),
        (0..ids.len()).collect::<BTreeSet<_>>(),
        "column-indices"
    );
    let zero = <W::T as num_traits::Zero>::zero();
    for i in 0..case.calls.len() {
        let w = case.witness(i);
        // columns taken from the original rows
        let mut row = built.rows[i].clone();
        for (id, var) in &v.names {
            let Some(ix) = built.index.get(id) else { continue };
            if let Some(x) = w.get(var) {
                ensure!(
                    row[*ix] == *x,
                    "wrong-value",
                    "call {i}: column {id} is {} instead of {x} (original column {var})",
                    row[*ix]
                );
            }
        }
        // derived columns, in order, as the trace generators compute them
        for d in &built.machine.derived_columns {
            let Some(ix) = built.index.get(&d.variable.id) else {
                return Err(Failure::new("derived-without-index", format!("{}", d.variable)));
            };
            let x = catch(|| {
                let ev = MappingRowEvaluator::new(&row, &built.index);
                match &d.computation_method {
                    ComputationMethod::Constant(c) => *c,
                    ComputationMethod::QuotientOrZero(a, b) => {
                        let b: W::T = ev.eval_expr(b);
                        if b == zero {
                            zero
                        } else {
                            let a: W::T = ev.eval_expr(a);
                            a / b
                        }
                    }
                }
            })
            .map_err(panicked)?;
            row[*ix] = x;
        }
        if !case.holds(&w, &sem) {
            g.label("call-not-executable");
            continue;
        }
        // constraints and interactions as the repository evaluates them
        let ev = MappingRowEvaluator::new(&row, &built.index);
        for (k, c) in built.machine.constraints.iter().enumerate() {
            let x: W::T = ev.eval_constraint(c).expr;
            ensure!(x == zero, "row-rejected", "call {i}: constraint {k} ({c}) is {x}");
        }
        let mut effect: BTreeMap<Vec<W::T>, W::T> = BTreeMap::new();
        for (k, b) in built.machine.bus_interactions.iter().enumerate() {
            let ConcreteBusInteraction { id, mult, args } = ev.eval_bus_interaction(b);
            let args: Vec<W::T> = args.collect();
            let bus = W::T::from(id);
            if mult == zero {
                continue;
            }
            if !BusSem::stateful(&sem, bus) {
                ensure!(sem.allowed(bus, mult, &args), "row-rejected", "call {i}: interaction {k} ({b})");
                continue;
            }
            ensure!(sem.allowed(bus, mult, &args), "row-rejected", "call {i}: interaction {k} ({b})");
            let mut key = vec![bus];
            key.extend(args);
            *effect.entry(key).or_insert(zero) += mult;
        }
        effect.retain(|_, m| *m != zero);
        let wv: Vec<W::T> = pair.ix.vars.iter().map(|v| w.get(v).copied().unwrap_or(zero)).collect();
        let want = pair.orig.effect(&wv, &sem);
        ensure!(effect == want, "effect", "call {i}: {effect:?} instead of {want:?}");
        g.label("call-checked");
    }
    Ok(())
}

fn c19_tiny(g: &mut Gen) -> CaseResult {
    let len = g.range(1, 7);
    let calls = g.range(1, 5);
    match g.usize(3) {
        0 => c19::<Tiny<37, 2>>(g, len, 14, calls),
        1 => c19::<Tiny<61, 2>>(g, len, 18, calls),
        _ => c19::<Tiny<251, 3>>(g, len, 18, calls),
    }
}
fn c19_openvm(g: &mut Gen) -> CaseResult {
    let len = g.range(1, 8);
    let calls = g.range(1, 5);
    match g.usize(2) {
        0 => c19::<Open<1>>(g, len, 24, calls),
        _ => c19::<Open<4>>(g, len, 40, calls),
    }
}

fn main() {
    run(vec![
        Property {
            id: "C18",
            rule: "the precompile has fewer columns than the block",
            assumptions: &["generated instruction sets whose circuits have the shape the code expects (one program lookup, one receive and one send of the execution state)", "tiny: prime fields of 23 to 61 elements, rows enumerated within a search budget; openvm: BabyBear with the OpenVM bus model, executed and perturbed rows"],
            subs: vec![
                Sub { name: "tiny", f: c18_tiny, quick: 10_000, thorough: 500_000 },
                Sub { name: "openvm", f: c18_openvm, quick: 10_000, thorough: 500_000 },
            ],
        },
        Property {
            id: "C19",
            rule: "several calls of a block in which an instruction kind repeats",
            assumptions: &["original rows come from the executor of the generated instruction sets; rows of an instruction kind are laid out in order of execution"],
            subs: vec![
                Sub { name: "tiny", f: c19_tiny, quick: 12_000, thorough: 500_000 },
                Sub { name: "openvm", f: c19_openvm, quick: 10_000, thorough: 500_000 },
            ],
        },
    ]);
}
