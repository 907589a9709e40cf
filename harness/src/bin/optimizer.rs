//! C11-C15: the autoprecompile optimizer.
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::constraint_optimizer::{
    remove_disconnected_columns, simplify_constraints_using_exhaustive_search,
};
use powdr_autoprecompiles::low_degree_bus_interaction_optimizer::LowDegreeBusInteractionOptimizer;
use powdr_autoprecompiles::memory_optimizer::optimize_memory;
use powdr_autoprecompiles::optimizer::{optimize, optimize_exec_bus};
use powdr_autoprecompiles::range_constraint_optimizer::optimize_range_constraints;
use powdr_constraint_solver::constraint_system::ConstraintSystem;
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::solver::{new_solver, Solver};
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{ColumnAllocator, DegreeBound};
use powdr_number::FieldElement;
use powdr_verif_harness::circuit::*;
use powdr_verif_harness::engine::{main as run, CaseResult, Failure, Gen, Property, Sub};
use powdr_verif_harness::model::*;
use powdr_verif_harness::tiny::Fp;
#[allow(unused_imports)]
use powdr_verif_harness::{ensure, ensure_eq};

fn tiny_bus_map() -> BusMap<String> {
    BusMap::from_id_type_pairs([
        (EXEC, BusType::ExecutionBridge),
        (MEM, BusType::Memory),
        (RANGE, BusType::Other("range".to_string())),
        (VARRANGE, BusType::Other("varrange".to_string())),
        (BITWISE, BusType::Other("bitwise".to_string())),
        (TUPLE, BusType::Other("tuple".to_string())),
        (FREE, BusType::Other("free".to_string())),
        (PC, BusType::PcLookup),
    ])
}

fn run_optimize<T: FieldElement>(
    m: SymbolicMachine<T>,
    h: TinyBuses<T>,
    bound: DegreeBound,
) -> Result<SymbolicMachine<T>, String> {
    let alloc = ColumnAllocator::from_max_poly_id_of_machine(&m);
    optimize::<T, _, _, TinyMem<T, AlgebraicReference>>(
        m,
        h,
        bound,
        &tiny_bus_map(),
        alloc,
        &mut ExportOptions::default(),
    )
    .map(|(m, _)| m)
    .map_err(|e| format!("{e:?}"))
}

fn circuit<T: FieldElement>(g: &mut Gen, bw: u32) -> (Circuit<T>, TinyBuses<T>) {
    let mem_bytes = g.bool();
    let cfg = Cfg {
        bw,
        mem_bytes,
        max_instr: 3,
        max_vars: 14,
        extra: 3,
        pointers: g.bool(),
        max_data: if g.chance(1, 5) { 2 } else { 1 },
    };
    let c = Circuit::generate(g, cfg);
    let mut h = TinyBuses::new(bw, g.chance(3, 4));
    h.mem_bytes = mem_bytes;
    (c, h)
}

fn new_behaviour<T: FieldElement>(pair: &Pair<T>, opt: &Trans<T>, s: &[T], detail: String) -> Failure {
    let merge = is_cancelling_merge(&opt.sys, &|v| s[pair.ix.of[&v]]);
    Failure::new(if merge { MERGE } else { "new-behaviour" }, detail)
}
const MERGE: &str = "circular-range-merge";

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Complete,
    Sound,
}

/// Compares original and result. Returns whether all relevant solutions were covered.
fn compare<T: FieldElement>(
    g: &mut Gen,
    orig: &Sys<T>,
    opt: &Trans<T>,
    h: &TinyBuses<T>,
    witness: &std::collections::BTreeMap<Var, T>,
    mode: Mode,
    ts: Option<Var>,
    limit: usize,
) -> CaseResult {
    let p = T::modulus_u64();
    let pair = Pair::new(orig, opt)?;
    let w: Vec<T> = pair
        .ix
        .vars
        .iter()
        .map(|v| witness.get(v).copied().unwrap_or(T::zero()))
        .collect();
    // Without a timestamp variable, stateful buses are opaque and all solutions count.
    let honest = |o: &CSys<T>, w: &[T]| ts.is_none() || honest(o, w);
    if !pair.orig.satisfied(&w, h) || !honest(&pair.orig, &w) {
        return Err(Failure::new(
            "harness",
            format!("witness does not satisfy {:?}", pair.orig.violated(&w, h)),
        ));
    }
    match mode {
        Mode::Complete => {
            pair.complete_for(&w, h)?;
            let mut fixed = std::collections::BTreeMap::new();
            let sols = match pair.orig.solutions_fixing(p, h, limit, &fixed, 20_000) {
                Some(s) => Some(s),
                None => {
                    if let Some(i) = ts.and_then(|t| pair.ix.of.get(&t)) {
                        fixed.insert(*i, w[*i]);
                    }
                    pair.orig.solutions_fixing(p, h, limit, &fixed, 20_000)
                }
            };
            match sols {
                Some(s) => {
                    g.label("enumerated");
                    let mut n = 0;
                    for w in &s {
                        if honest(&pair.orig, w) {
                            n += 1;
                            pair.complete_for(w, h)?;
                        }
                    }
                    if n > 1 {
                        g.label("several-executions");
                    }
                }
                None => g.label("witness-only"),
            }
        }
        Mode::Sound => {
            let mut fixed = std::collections::BTreeMap::new();
            let sols = match pair.opt.solutions_fixing(p, h, limit, &fixed, 20_000) {
                Some(s) => Some(s),
                None => {
                    if let Some(i) = ts.and_then(|t| pair.ix.of.get(&t)) {
                        fixed.insert(*i, w[*i]);
                    }
                    pair.opt.solutions_fixing(p, h, limit, &fixed, 20_000)
                }
            };
            let Some(sols) = sols else {
                g.label("inconclusive");
                return Ok(());
            };
            g.label("enumerated");
            // one representative per effect
            let mut by_effect = std::collections::BTreeMap::new();
            for s in &sols {
                by_effect.entry(pair.opt.effect(s, h)).or_insert(s);
            }
            if by_effect.len() > 1 {
                g.label("several-effects");
            }
            let n = by_effect.len();
            let take = 60;
            let mut incon = 0;
            let mut known = None;
            for (i, (eff, s)) in by_effect.into_iter().enumerate() {
                // spread over the list
                if n > take && i % n.div_ceil(take) != 0 {
                    continue;
                }
                match pair.achievable(s, p, h, 60_000) {
                    Some(true) => {}
                    Some(false) => {
                        let f = new_behaviour(
                            &pair,
                            opt,
                            s,
                            format!(
                                "the result admits {} with stateful interactions {eff:?}, which no original solution has",
                                pair.show(s, &pair.opt_vars)
                            ),
                        );
                        if f.sig != MERGE {
                            return Err(f);
                        }
                        known = Some(f);
                    }
                    None => {
                        incon += 1;
                        if incon > 4 {
                            break;
                        }
                    }
                }
            }
            if incon > 0 {
                g.label("some-effects-inconclusive");
            }
            if let Some(f) = known {
                return Err(f);
            }
        }
    }
    Ok(())
}

fn full<const P: u32>(g: &mut Gen, bw: u32, mode: Mode) -> CaseResult {
    type F<const P: u32> = Fp<P>;
    let (c, h) = circuit::<F<P>>(g, bw);
    let bound = gen_bound(g, &c.b.sys);
    g.note(|| format!("field {P}, bw {bw}, mem_bytes {}, precise {}, degree bound {:?}/{:?}\n{}", h.mem_bytes, h.precise, bound.identities, bound.bus_interactions, c.b.sys));
    let m = to_machine(&c.b.sys);
    let r = run_optimize(m, h.clone(), bound)
        .map_err(|e| Failure::new("optimizer-error", format!("{e} on a satisfiable system")))?;
    let t = Trans::of_machine(&r);
    g.note(|| format!("result:\n{t}"));
    if c.merges > 0 {
        g.label("same-address-twice");
    }
    if t.sys.vars().len() < c.b.sys.vars().len() {
        g.nontrivial();
    }
    compare(g, &c.b.sys, &t, &h, &c.b.w, mode, Some(c.ts_var), 200_000)
}

fn full_any(g: &mut Gen, mode: Mode) -> CaseResult {
    match g.usize(6) {
        0 => full::<13>(g, 1, mode),
        1 => full::<23>(g, 1, mode),
        2 | 3 => full::<23>(g, 2, mode),
        4 => full::<29>(g, 2, mode),
        _ => full::<37>(g, 2, mode),
    }
}

fn c12_tiny(g: &mut Gen) -> CaseResult {
    full_any(g, Mode::Complete)
}
fn c13_tiny(g: &mut Gen) -> CaseResult {
    full_any(g, Mode::Sound)
}

/// Fixed input of the known finding `circular-range-merge`.
fn c13_is_zero_chain(g: &mut Gen) -> CaseResult {
    type F = Fp<13>;
    let mut s = Sys::<F>::default();
    let v = |i| Ex::V(Var(i));
    let c = |i: u64| Ex::<F>::c(i);
    s.alg = vec![
        v(4) * (v(4) - c(1)),
        v(4) * v(1),
        v(1) * v(5) + v(4) - c(1),
        v(6) * v(4),
        v(4) * v(7) + v(6) - c(1),
        v(0) - c(8),
    ];
    let b = |id, mult, args| Bus { id: c(id), mult, args };
    s.bus = vec![
        b(EXEC, Ex::C(-F::from(1u64)), vec![c(0), v(0)]),
        b(MEM, Ex::C(-F::from(1u64)), vec![c(1), c(0), v(1), v(2)]),
        b(RANGE, c(1), vec![v(1)]),
        b(MEM, c(1), vec![c(1), c(0), v(1), v(0)]),
        b(EXEC, c(1), vec![c(1) + v(4), v(0) + c(1)]),
    ];
    let w = [(0, 8u64), (1, 0), (2, 0), (4, 1), (5, 0), (6, 0), (7, 1)]
        .into_iter()
        .map(|(i, x)| (Var(i), F::from(x)))
        .collect();
    let h = TinyBuses::<F>::new(1, false);
    note_sys(g, &h, &s);
    let r = run_optimize(to_machine(&s), h.clone(), DegreeBound { identities: 2, bus_interactions: 1 })
        .map_err(|e| Failure::new("optimizer-error", e))?;
    let t = Trans::of_machine(&r);
    g.note(|| format!("result:\n{t}"));
    g.nontrivial();
    compare(g, &s, &t, &h, &w, Mode::Sound, None, 200_000)
}

// ---------------------------------------------------------------------------------------------
// C11: individual passes

/// Brings the system into the state in which the optimizer runs its passes: the solver has run
/// and its assignments have been applied.
fn prepared<T: FieldElement>(
    sys: &Sys<T>,
    h: &TinyBuses<T>,
) -> Result<(IndexedConstraintSystem<T, Var>, impl Solver<T, Var>), Failure> {
    let cs = sys.to_powdr();
    let mut solver = new_solver(cs.clone(), h.clone());
    let a = solver
        .solve()
        .map_err(|e| Failure::new("solver-error", format!("{e:?} on a satisfiable system")))?;
    let mut ics: IndexedConstraintSystem<_, _> = cs.into();
    ics.apply_substitutions(a);
    // Fields that are known to be constant are replaced (keeping the equality as constraint).
    let mut cs: ConstraintSystem<T, Var> = ics.into();
    let mut extra = vec![];
    for bi in &mut cs.bus_interactions {
        for f in bi.fields_mut() {
            if f.try_to_number().is_some() {
                continue;
            }
            if let Some(v) = solver.range_constraint_for_expression(f).try_to_single_value() {
                let c = powdr_constraint_solver::grouped_expression::GroupedExpression::from_number(v);
                extra.push(powdr_constraint_solver::constraint_system::AlgebraicConstraint::assert_eq(f.clone(), c.clone()));
                *f = c;
            }
        }
    }
    cs.algebraic_constraints.extend(extra);
    Ok((cs.into(), solver))
}

/// Same solutions for the common variables (and same effect), in both directions.
fn same_meaning<T: FieldElement>(
    g: &mut Gen,
    before: &Sys<T>,
    after: &Trans<T>,
    h: &TinyBuses<T>,
    witness: &std::collections::BTreeMap<Var, T>,
) -> CaseResult {
    compare(g, before, after, h, witness, Mode::Complete, None, 100_000)?;
    let p = T::modulus_u64();
    let pair = Pair::new(before, after)?;
    let none = std::collections::BTreeMap::new();
    let Some(sols) = pair.opt.solutions_fixing(p, h, 100_000, &none, 400) else {
        g.label("inconclusive");
        return Ok(());
    };
    g.label("sound-enumerated");
    let mut known = None;
    for s in sols.iter().step_by((sols.len() / 100).max(1)) {
        match pair.achievable(s, p, h, 40_000) {
            Some(true) => {}
            Some(false) => {
                let f = new_behaviour(
                    &pair,
                    after,
                    s,
                    format!(
                        "the result admits {} with effect {:?}, which no original solution has",
                        pair.show(s, &pair.opt_vars),
                        pair.opt.effect(s, h)
                    ),
                );
                if f.sig != MERGE {
                    return Err(f);
                }
                known = Some(f);
            }
            None => {
                g.label("some-effects-inconclusive");
                break;
            }
        }
    }
    known.map_or(Ok(()), Err)
}

/// As `same_meaning`, but the solution sets have to be identical.
fn same_solutions<T: FieldElement>(
    g: &mut Gen,
    before: &Sys<T>,
    after: &Trans<T>,
    h: &TinyBuses<T>,
    witness: &std::collections::BTreeMap<Var, T>,
) -> CaseResult {
    let p = T::modulus_u64();
    let pair = Pair::new(before, after)?;
    let w: Vec<T> = pair.ix.vars.iter().map(|v| witness.get(v).copied().unwrap_or(T::zero())).collect();
    pair.complete_for(&w, h)?;
    let none = std::collections::BTreeMap::new();
    match pair.orig.solutions_fixing(p, h, 150_000, &none, 5_000) {
        Some(sols) => {
            g.label("enumerated");
            for s in &sols {
                pair.complete_for(s, h)?;
            }
        }
        None => g.label("witness-only"),
    }
    let Some(sols) = pair.opt.solutions_fixing(p, h, 150_000, &none, 5_000) else {
        g.label("inconclusive");
        return Ok(());
    };
    g.label("sound-enumerated");
    for s in &sols {
        // Variables that do not occur any more have to be unconstrained.
        let fixed = pair.opt_vars.iter().map(|v| (*v, s[*v])).collect();
        match pair.orig.solutions_fixing(p, h, 20_000, &fixed, 1) {
            None => {
                g.label("some-inconclusive");
                break;
            }
            Some(v) if v.is_empty() => {
                return Err(Failure::new(
                    "new-solution",
                    format!("the result admits {}, the original does not", pair.show(s, &pair.opt_vars)),
                ))
            }
            _ => {}
        }
    }
    Ok(())
}

fn gen_any_sys<T: FieldElement>(g: &mut Gen, bw: u32) -> (Sys<T>, std::collections::BTreeMap<Var, T>, TinyBuses<T>) {
    if g.chance(1, 3) {
        let (c, h) = circuit::<T>(g, bw);
        (c.b.sys, c.b.w, h)
    } else {
        let mut b = gen_system::<T>(g, bw, 8, 7);
        // Some variables are visible outside.
        let k = g.usize(3);
        for i in 0..k {
            if b.kinds.is_empty() {
                break;
            }
            let e = b.affine(g, 2);
            b.sys.bus.push(Bus { id: Ex::c(EXEC), mult: Ex::c(1), args: vec![Ex::c(i as u64), e] });
        }
        (b.sys, b.w, TinyBuses::new(bw, g.chance(3, 4)))
    }
}

fn note_sys<T: FieldElement>(g: &mut Gen, h: &TinyBuses<T>, s: &Sys<T>) {
    g.note(|| format!("field {}, bw {}, mem_bytes {}, precise {}\n{s}", T::modulus(), h.bw, h.mem_bytes, h.precise));
}

fn pass<T: FieldElement>(g: &mut Gen, bw: u32, which: usize) -> CaseResult {
    let (sys, w, h) = gen_any_sys::<T>(g, bw);
    note_sys(g, &h, &sys);
    match which {
        0 => {
            let (cs, solver) = prepared(&sys, &h)?;
            let before = Trans::of_cs(cs.system());
            g.note(|| format!("prepared:\n{before}"));
            let after = simplify_constraints_using_exhaustive_search(cs.clone(), &solver);
            if after.to_string() != cs.to_string() {
                g.nontrivial();
            }
            let after = Trans::of_cs(after.system());
            g.note(|| format!("result:\n{after}"));
            same_solutions(g, &before.sys, &after, &h, &w)
        }
        1 => {
            let (cs, mut solver) = prepared(&sys, &h)?;
            let before = Trans::of_cs(cs.system());
            g.note(|| format!("prepared:\n{before}"));
            let after = remove_disconnected_columns(cs.clone(), &mut solver, h.clone());
            if after.to_string() != cs.to_string() {
                g.nontrivial();
            }
            let after = Trans::of_cs(after.system());
            g.note(|| format!("result:\n{after}"));
            same_meaning(g, &before.sys, &after, &h, &w)
        }
        2 => {
            let bound = gen_bound(g, &sys);
            let (cs, mut solver) = prepared(&sys, &h)?;
            let before = Trans::of_cs(cs.system());
            g.note(|| format!("prepared:\n{before}"));
            let after = LowDegreeBusInteractionOptimizer::new(&mut solver, h.clone(), bound)
                .optimize(cs.system().clone());
            if after.to_string() != cs.to_string() {
                g.nontrivial();
            }
            let after = Trans::of_cs(&after);
            g.note(|| format!("result:\n{after}"));
            same_solutions(g, &before.sys, &after, &h, &w)
        }
        3 => {
            let bound = gen_bound(g, &sys);
            let before = Trans::of_cs(&sys.to_powdr());
            let after = optimize_range_constraints(sys.to_powdr(), h.clone(), bound);
            if after.to_string() != sys.to_powdr().to_string() {
                g.nontrivial();
            }
            let after = Trans::of_cs(&after);
            g.note(|| format!("result:\n{after}"));
            same_solutions(g, &before.sys, &after, &h, &w)
        }
        _ => unreachable!(),
    }
}

fn pass_any(g: &mut Gen, which: usize) -> CaseResult {
    match g.usize(5) {
        0 => pass::<Fp<13>>(g, 1, which),
        1 => pass::<Fp<23>>(g, 1, which),
        2 => pass::<Fp<23>>(g, 2, which),
        3 => pass::<Fp<29>>(g, 2, which),
        _ => pass::<Fp<37>>(g, 2, which),
    }
}
fn c11_exhaustive(g: &mut Gen) -> CaseResult {
    pass_any(g, 0)
}
fn c11_disconnected(g: &mut Gen) -> CaseResult {
    pass_any(g, 1)
}
fn c11_lowdegree(g: &mut Gen) -> CaseResult {
    pass_any(g, 2)
}
fn c11_range(g: &mut Gen) -> CaseResult {
    pass_any(g, 3)
}

/// Variables with few values that are correlated through product constraints, so that some
/// expressions over them have the same value for all admissible assignments.
fn correlated<T: FieldElement>(g: &mut Gen, bw: u32) -> CaseResult {
    let h = TinyBuses::<T>::new(bw, g.chance(3, 4));
    let mut b = Builder::<T>::new(bw, 7);
    for _ in 0..g.range(1, 2) {
        let n = g.range(2, 3);
        let hot = g.usize(n + 1);
        let mut fs = vec![];
        for i in 0..n {
            let c: T = if g.bool() { T::one() } else { nonzero(gen_const(g)) };
            let v = b.new_var(g, if i == hot { c } else { T::zero() }, Kind::Free);
            b.assert_zero(Ex::V(v) * (Ex::V(v) - Ex::C(c)));
            fs.push((v, c));
        }
        for i in 0..n {
            for j in 0..i {
                if g.chance(9, 10) {
                    b.assert_zero(Ex::V(fs[i].0) * Ex::V(fs[j].0));
                }
            }
        }
        if hot < n && g.chance(3, 4) {
            // not all of them are zero
            let mut e = Ex::V(fs[0].0) - Ex::C(fs[0].1);
            for (v, c) in &fs[1..] {
                e = e * (Ex::V(*v) - Ex::C(*c));
            }
            if g.chance(1, 5) && n == 3 {
                e = (Ex::V(fs[0].0) - Ex::C(fs[0].1)) * (Ex::V(fs[1].0) - Ex::C(fs[1].1));
            }
            if b.val(&e) == T::zero() {
                b.assert_zero(e);
            }
        }
        // expressions that are (almost) constant
        for _ in 0..g.range(1, 2) {
            let k = nonzero(gen_const::<T>(g));
            let mut e = Ex::c(0);
            for (v, c) in &fs {
                if g.chance(11, 12) {
                    e = e + Ex::C(k / *c) * Ex::V(*v);
                }
            }
            let e = match g.usize(4) {
                0 => {
                    let a = b.any_var(g);
                    e * Ex::V(a)
                }
                _ => e,
            };
            let e = if g.chance(2, 3) { e + b.affine(g, 2) } else { e };
            match g.usize(3) {
                0 => {
                    let e = b.zeroed(e);
                    b.assert_zero(e);
                }
                1 => {
                    use powdr_number::LargeInt;
                    let v = b.val(&e).to_integer().try_into_u64().unwrap();
                    let d = v - g.below((1u64 << bw).min(v + 1));
                    b.range_check(g, e - Ex::c(d));
                }
                _ => b.sys.bus.push(Bus { id: Ex::c(EXEC), mult: Ex::c(1), args: vec![Ex::c(0), e] }),
            }
        }
    }
    for _ in 0..g.usize(2) {
        b.add_constraint(g);
    }
    let (sys, w) = (b.sys, b.w);
    note_sys(g, &h, &sys);
    let (cs, solver) = if g.bool() {
        prepared(&sys, &h)?
    } else {
        let (_, solver) = prepared(&sys, &h)?;
        (sys.to_powdr().into(), solver)
    };
    let before = Trans::of_cs(cs.system());
    let after = simplify_constraints_using_exhaustive_search(cs.clone(), &solver);
    if after.to_string() != cs.to_string() {
        g.nontrivial();
    }
    let after = Trans::of_cs(after.system());
    g.note(|| format!("before:\n{before}\nresult:\n{after}"));
    same_solutions(g, &before.sys, &after, &h, &w)
}
fn c11_correlated(g: &mut Gen) -> CaseResult {
    match g.usize(3) {
        0 => correlated::<Fp<13>>(g, 1),
        1 => correlated::<Fp<23>>(g, 2),
        _ => correlated::<Fp<37>>(g, 2),
    }
}

/// Lookup-heavy systems for the low-degree replacement and the range constraint optimizer.
fn gen_lookups<T: FieldElement>(g: &mut Gen, bw: u32, products: bool) -> (Builder<T>, TinyBuses<T>) {
    let h = TinyBuses::<T>::new(bw, g.chance(3, 4));
    let byte = 1u64 << bw;
    let mut b = Builder::<T>::new(bw, 6);
    let n = g.range(1, 4);
    for _ in 0..n {
        // operands: variable, sum, bit, masked, constant
        let operand = |g: &mut Gen, b: &mut Builder<T>| -> (Ex<T>, u64) {
            let (e, _) = match g.usize(6) {
                _ if products && g.chance(1, 3) => {
                    let mut e = Ex::V(b.bit(g));
                    for _ in 0..g.usize(3) {
                        e = e * Ex::V(b.bit(g));
                    }
                    (e, 0)
                }
                0 => (Ex::c(g.below(byte)), 0),
                1 => {
                    let v = b.bit(g);
                    (Ex::V(v), 0)
                }
                2 => {
                    let v = b.bit(g);
                    (Ex::V(v) * Ex::c(byte / 2), 0)
                }
                3 => {
                    let (v, u) = (b.bit(g), b.bit(g));
                    (if g.bool() { Ex::V(v) * Ex::V(u) } else { Ex::V(v) + Ex::V(u) }, 0)
                }
                _ => {
                    let v = if b.kinds.is_empty() || g.chance(1, 3) { b.small(g) } else { b.any_var(g) };
                    (Ex::V(v), 0)
                }
            };
            let v = b.val(&e);
            let k = { use powdr_number::LargeInt; v.to_integer().try_into_u64().unwrap() };
            if k < byte { (e, k) } else {
                let d = k - g.below(byte);
                (e - Ex::c(d), k - d)
            }
        };
        let (x, xv) = operand(g, &mut b);
        let (y, yv) = operand(g, &mut b);
        let mult = if g.chance(1, 6) {
            let f = b.bit(g);
            b.constrain_bit(g, f);
            Ex::V(f)
        } else if g.chance(1, 10) {
            Ex::c(2)
        } else {
            Ex::c(1)
        };
        let one = |id: u64, mult: Ex<T>, args| Bus { id: Ex::c(id), mult, args };
        match g.usize(6) {
            0 | 1 => {
                let z = b.new_var(g, T::from(xv ^ yv), Kind::Small);
                b.sys.bus.push(one(BITWISE, mult, vec![x, y, Ex::V(z), Ex::c(1)]));
            }
            2 => {
                // and
                let z = b.new_var(g, T::from(xv & yv), Kind::Small);
                let e = x.clone() + y.clone() - Ex::c(2) * Ex::V(z);
                b.sys.bus.push(one(BITWISE, mult, vec![x, y, e, Ex::c(1)]));
            }
            3 => b.sys.bus.push(one(BITWISE, mult, vec![x, y, Ex::c(0), Ex::c(0)])),
            4 => {
                let (x, k) = if g.bool() { (x, bw as u64 + g.below(2)) } else {
                    let v = b.bit(g);
                    (Ex::V(v), g.range(1, bw as usize) as u64)
                };
                b.sys.bus.push(one(VARRANGE, mult, vec![x, Ex::c(k)]))
            }
            _ => {
                let v = b.bit(g);
                b.sys.bus.push(one(TUPLE, mult, vec![x, Ex::V(v)]))
            }
        }
    }
    for _ in 0..g.usize(3) {
        b.add_constraint(g);
    }
    (b, h)
}
fn lookups<T: FieldElement>(g: &mut Gen, bw: u32, which: usize) -> CaseResult {
    let (b, h) = gen_lookups::<T>(g, bw, false);
    let (sys, w) = (b.sys, b.w);
    note_sys(g, &h, &sys);
    let bound = gen_bound(g, &sys);
    g.note(|| format!("degree bound {} / {}", bound.identities, bound.bus_interactions));
    let (before, after) = if which == 0 {
        let (cs, mut solver) = prepared(&sys, &h)?;
        let after = LowDegreeBusInteractionOptimizer::new(&mut solver, h.clone(), bound)
            .optimize(cs.system().clone());
        (cs.system().clone(), after)
    } else {
        (sys.to_powdr(), optimize_range_constraints(sys.to_powdr(), h.clone(), bound))
    };
    if before.to_string() != after.to_string() {
        g.nontrivial();
    }
    let (before, after) = (Trans::of_cs(&before), Trans::of_cs(&after));
    g.note(|| format!("before:\n{before}\nresult:\n{after}"));
    let (ia, ib) = degrees(&before.sys);
    let (oa, ob) = degrees(&after.sys);
    ensure!(oa <= bound.identities.max(ia) && ob <= bound.bus_interactions.max(ib), "degree", "degrees {oa}/{ob} above the bound");
    same_solutions(g, &before.sys, &after, &h, &w)
}
fn lookups_any(g: &mut Gen, which: usize) -> CaseResult {
    match g.usize(4) {
        0 => lookups::<Fp<13>>(g, 1, which),
        1 => lookups::<Fp<23>>(g, 2, which),
        2 => lookups::<Fp<37>>(g, 3, which),
        _ => lookups::<Fp<29>>(g, 2, which),
    }
}
fn c11_lookups_low_degree(g: &mut Gen) -> CaseResult {
    lookups_any(g, 0)
}
fn c11_lookups_range(g: &mut Gen) -> CaseResult {
    lookups_any(g, 1)
}

/// Adds explicit range checks for everything the solver finds out about the ranges of variables
/// (which does not change the solutions), see known finding circular-range-merge: the optimizer may
/// drop the only constraints from which a range follows.
fn with_explicit_ranges<T: FieldElement>(sys: &mut Sys<T>, h: &TinyBuses<T>) -> CaseResult {
    use powdr_number::LargeInt;
    let mut solver = new_solver(sys.to_powdr(), h.clone());
    solver
        .solve()
        .map_err(|e| Failure::new("solver-error", format!("{e:?} on a satisfiable system")))?;
    let n = |x: T| x.to_integer().try_into_u64().unwrap();
    for v in sys.vars() {
        let rc = solver.range_constraint_for_expression(&powdr_constraint_solver::grouped_expression::GroupedExpression::from_unknown_variable(v));
        let (lo, hi) = rc.range();
        if rc.is_unconstrained() || lo == hi {
            continue;
        }
        let width = n(hi - lo);
        let e = Ex::V(v) - Ex::C(lo);
        if width == 1 {
            sys.alg.push(e.clone() * (e - Ex::c(1)));
            continue;
        }
        let bits = (width + 1).next_power_of_two().trailing_zeros() as u64;
        let mut check = |e| sys.bus.push(Bus { id: Ex::c(VARRANGE), mult: Ex::c(1), args: vec![e, Ex::c(bits)] });
        if bits > TinyBuses::<T>::max_bits(h.bw) || 2u64 << bits > T::modulus_u64() {
            continue;
        }
        check(e.clone());
        if 1u64 << bits != width + 1 {
            check(e + Ex::c((1u64 << bits) - 1 - width));
        }
    }
    Ok(())
}

/// Runs the optimizer without execution bridge and memory buses: all stateful buses are opaque.
fn run_opaque<T: FieldElement>(
    m: SymbolicMachine<T>,
    h: TinyBuses<T>,
    bound: DegreeBound,
) -> Result<SymbolicMachine<T>, String> {
    let alloc = ColumnAllocator::from_max_poly_id_of_machine(&m);
    let map = BusMap::<String>::from_id_type_pairs([(PC, BusType::PcLookup)]);
    optimize::<T, _, _, TinyMem<T, AlgebraicReference>>(
        m,
        h,
        bound,
        &map,
        alloc,
        &mut ExportOptions::default(),
    )
    .map(|(r, _)| r)
    .map_err(|e| format!("{e:?}"))
}

/// All passes together on arbitrary systems; the stateful buses are opaque (no memory or
/// execution-state reasoning).
fn pipeline<T: FieldElement>(g: &mut Gen, bw: u32) -> CaseResult {
    let mut b = gen_system_checked::<T>(g, bw, 8, 7);
    let k = 1 + g.usize(3);
    for i in 0..k {
        if b.kinds.is_empty() {
            break;
        }
        let e = b.affine(g, 2);
        let mult = if g.chance(1, 5) { let v = b.any_var(g); Ex::V(v) } else { Ex::c(1) };
        b.sys.bus.push(Bus { id: Ex::c(EXEC), mult, args: vec![Ex::c(i as u64), e] });
        if g.chance(1, 10) {
            // once more
            let last = b.sys.bus.last().unwrap().clone();
            b.sys.bus.push(last);
        }
    }
    if !b.kinds.is_empty() && g.chance(1, 3) {
        shared_free_variable(&mut b, g, bw);
    }
    let h = TinyBuses::new(bw, g.chance(3, 4));
    let (mut sys, w) = (b.sys, b.w);
    if g.chance(3, 4) {
        with_explicit_ranges(&mut sys, &h)?;
    }
    note_sys(g, &h, &sys);
    let bound = gen_bound(g, &sys);
    g.note(|| format!("degree bound {} / {}", bound.identities, bound.bus_interactions));
    let r = run_opaque(to_machine(&sys), h.clone(), bound)
        .map_err(|e| Failure::new("optimizer-error", format!("{e} on a satisfiable system")))?;
    let t = Trans::of_machine(&r);
    g.note(|| format!("result:\n{t}"));
    if t.sys.vars().len() < sys.vars().len() {
        g.nontrivial();
    }
    same_meaning(g, &sys, &t, &h, &w)
}
fn c11_pipeline(g: &mut Gen) -> CaseResult {
    match g.usize(4) {
        0 => pipeline::<Fp<13>>(g, 1),
        1 => pipeline::<Fp<23>>(g, 2),
        2 => pipeline::<Fp<37>>(g, 2),
        _ => pipeline::<Fp<29>>(g, 1),
    }
}

/// Execution bus: the chain of states is kept.
fn c11_exec(g: &mut Gen) -> CaseResult {
    type F = Fp<37>;
    let (c, h) = circuit::<F>(g, 2);
    note_sys(g, &h, &c.b.sys);
    let m = to_machine(&c.b.sys);
    let n_exec = m.bus_interactions.iter().filter(|b| b.id == EXEC).count();
    let r = optimize_exec_bus(m.clone(), EXEC);
    ensure_eq!(
        r.bus_interactions.iter().filter(|b| b.id == EXEC).count(),
        2,
        "exec-count",
        "interactions with the execution bus"
    );
    // everything else is untouched and in order
    let rest = |m: &SymbolicMachine<F>| -> Vec<String> {
        m.bus_interactions.iter().filter(|b| b.id != EXEC).map(|b| b.to_string()).collect()
    };
    ensure_eq!(rest(&m), rest(&r), "other-interactions", "changed");
    if n_exec > 2 {
        g.nontrivial();
    }
    let t = Trans::of_machine(&r);
    g.note(|| format!("result:\n{t}"));
    compare(g, &c.b.sys, &t, &h, &c.b.w, Mode::Complete, Some(c.ts_var), 50_000)?;
    compare(g, &c.b.sys, &t, &h, &c.b.w, Mode::Sound, Some(c.ts_var), 50_000)
}

// ---------------------------------------------------------------------------------------------
// C14

fn c14<T: FieldElement>(g: &mut Gen, bw: u32) -> CaseResult {
    let (c, h) = circuit::<T>(g, bw);
    let bound = gen_bound(g, &c.b.sys);
    note_sys(g, &h, &c.b.sys);
    g.note(|| format!("degree bound {} / {}", bound.identities, bound.bus_interactions));
    let m = to_machine(&c.b.sys);
    let mut outs = vec![];
    for _ in 0..3 {
        let r = run_optimize(m.clone(), h.clone(), bound)
            .map_err(|e| Failure::new("optimizer-error", e))?;
        outs.push(r);
    }
    let text: Vec<String> = outs.iter().map(|m| serde_json::to_string(m).unwrap()).collect();
    ensure_eq!(text[0], text[1], "not-reproducible", "two runs differ");
    ensure_eq!(text[0], text[2], "not-reproducible", "two runs differ");
    let t = Trans::of_machine(&outs[0]);
    let (a, b) = degrees(&t.sys);
    if a == bound.identities || b == bound.bus_interactions {
        g.nontrivial();
    }
    ensure!(a <= bound.identities, "degree-identity", "degree {a} above {}:\n{t}", bound.identities);
    ensure!(b <= bound.bus_interactions, "degree-bus", "degree {b} above {}:\n{t}", bound.bus_interactions);
    Ok(())
}
/// Lookups on products, whose low-degree replacements may exceed the bound: the single passes and
/// the whole optimizer.
fn c14_lookups_in<T: FieldElement>(g: &mut Gen, bw: u32) -> CaseResult {
    let (b, h) = gen_lookups::<T>(g, bw, true);
    let mut sys = b.sys;
    // make some of it visible, so that not everything is removed
    for v in sys.vars() {
        if g.bool() {
            sys.bus.push(Bus { id: Ex::c(EXEC), mult: Ex::c(1), args: vec![Ex::V(v)] });
        }
    }
    note_sys(g, &h, &sys);
    let (ia, ib) = degrees(&sys);
    let bus_interactions = ib.max(1) + g.chance(1, 4) as usize;
    let identities = ia.max(2).max(bus_interactions) + [0, 0, 1, 2][g.usize(4)];
    let bound = DegreeBound { identities, bus_interactions };
    g.note(|| format!("degree bound {} / {}", bound.identities, bound.bus_interactions));
    let (pass, t) = match g.usize(4) {
        0 => {
            let (cs, mut solver) = prepared(&sys, &h)?;
            let (pa, pb) = degrees(&Trans::of_cs(cs.system()).sys);
            if pa > identities || pb > bus_interactions {
                return Ok(());
            }
            let after = LowDegreeBusInteractionOptimizer::new(&mut solver, h.clone(), bound)
                .optimize(cs.system().clone());
            ("low degree replacement", Trans::of_cs(&after))
        }
        1 => ("range constraints", Trans::of_cs(&optimize_range_constraints(sys.to_powdr(), h.clone(), bound))),
        _ => {
            let r = run_opaque(to_machine(&sys), h.clone(), bound)
                .map_err(|e| Failure::new("optimizer-error", e))?;
            ("optimizer", Trans::of_machine(&r))
        }
    };
    let (a, b) = degrees(&t.sys);
    if a == identities || b == bus_interactions {
        g.nontrivial();
    }
    ensure!(a <= identities, "degree-identity", "{pass}: degree {a} above {identities}:\n{t}");
    ensure!(b <= bus_interactions, "degree-bus", "{pass}: degree {b} above {bus_interactions}:\n{t}");
    Ok(())
}
fn c14_lookups(g: &mut Gen) -> CaseResult {
    match g.usize(3) {
        0 => c14_lookups_in::<Fp<13>>(g, 1),
        1 => c14_lookups_in::<Fp<37>>(g, 2),
        _ => c14_lookups_in::<powdr_number::BabyBearField>(g, 3),
    }
}
fn c14_tiny(g: &mut Gen) -> CaseResult {
    match g.usize(4) {
        0 => c14::<Fp<13>>(g, 1),
        1 => c14::<Fp<23>>(g, 2),
        2 => c14::<powdr_number::BabyBearField>(g, 3),
        _ => c14::<powdr_number::GoldilocksField>(g, 2),
    }
}

// ---------------------------------------------------------------------------------------------
// C15: memory

fn c15<T: FieldElement>(g: &mut Gen, bw: u32) -> CaseResult {
    let mem_bytes = g.bool();
    let cfg = Cfg {
        bw,
        mem_bytes,
        max_instr: 4,
        max_vars: 9,
        extra: 2,
        pointers: g.chance(3, 4),
        max_data: 2,
    };
    let c = Circuit::<T>::generate(g, cfg);
    let mut h = TinyBuses::new(bw, g.chance(3, 4));
    h.mem_bytes = mem_bytes;
    note_sys(g, &h, &c.b.sys);
    let (cs, mut solver) = if g.bool() {
        let (cs, solver) = prepared(&c.b.sys, &h)?;
        (cs.system().clone(), solver)
    } else {
        // unsubstituted system
        let (_, solver) = prepared(&c.b.sys, &h)?;
        (c.b.sys.to_powdr(), solver)
    };
    let before = Trans::of_cs(&cs);
    let known = g.chance(19, 20);
    let after = optimize_memory::<T, Var, TinyMem<T, Var>>(cs.clone(), &mut solver, known.then_some(MEM));
    let removed = cs.bus_interactions.len() - after.bus_interactions.len();
    ensure!(known || removed == 0, "no-memory-bus", "changed without a memory bus");
    if removed > 0 {
        g.nontrivial();
        if removed > 2 {
            g.label("several-merged");
        }
    }
    let after = Trans::of_cs(&after);
    g.note(|| format!("before:\n{before}\nresult:\n{after}"));
    // Merging never loses an honest execution.
    compare(g, &before.sys, &after, &h, &c.b.w, Mode::Complete, Some(c.ts_var), 100_000)?;
    // And every row of the result is a row of the original with the same net effect.
    let pair = Pair::new(&before.sys, &after)?;
    let p = T::modulus_u64();
    let none = std::collections::BTreeMap::new();
    let Some(sols) = pair.opt.solutions_fixing(p, &h, 60_000, &none, 500) else {
        g.label("inconclusive");
        return Ok(());
    };
    for s in &sols {
        match pair.achievable(s, p, &h, 30_000) {
            Some(true) => {}
            Some(false) => {
                return Err(Failure::new(
                    "new-behaviour",
                    format!("{} has effect {:?}", pair.show(s, &pair.opt_vars), pair.opt.effect(s, &h)),
                ))
            }
            None => {
                g.label("some-effects-inconclusive");
                break;
            }
        }
    }
    Ok(())
}
/// Access sequences with symbolic pointers and shared data expressions. Honest executions are
/// simulated for many values of the inputs; tampered ones must not get a different effect.
fn c15_pointers_in<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let p = T::modulus_u64();
    let mut b = Builder::<T>::new(2, 30);
    // inputs with constraints that tell something about them
    let n_ptr = g.range(1, 3);
    let mut inputs: Vec<(Var, Vec<T>)> = vec![];
    let mut ptrs: Vec<Ex<T>> = vec![Ex::c(0), Ex::c(1 + g.below(2))];
    for _ in 0..n_ptr {
        let v = b.new_var(g, T::zero(), Kind::Free);
        let vals: Vec<T> = match g.usize(3) {
            0 => {
                b.assert_zero(Ex::V(v) * (Ex::V(v) - Ex::c(1)));
                vec![T::zero(), T::one()]
            }
            1 => {
                let k = 1 + g.below(2);
                b.sys.bus.push(Bus { id: Ex::c(VARRANGE), mult: Ex::c(1), args: vec![Ex::V(v), Ex::c(k)] });
                (0..1u64 << k).map(T::from).collect()
            }
            _ => (0..p).map(T::from).collect(),
        };
        inputs.push((v, vals));
        let off = g.below(3);
        ptrs.push(Ex::V(v));
        ptrs.push(Ex::V(v) + Ex::c(off));
        if g.chance(1, 3) {
            ptrs.push(Ex::c(2) * Ex::V(v) + Ex::c(g.below(2)));
        }
    }
    let datas: Vec<Ex<T>> = (0..g.range(1, 3))
        .map(|_| {
            if g.chance(1, 4) {
                Ex::c(g.below(3))
            } else {
                let v = b.new_var(g, T::zero(), Kind::Free);
                inputs.push((v, (0..p).map(T::from).collect()));
                Ex::V(v)
            }
        })
        .collect();
    let two_spaces = g.chance(1, 3);
    // (address space, pointer, data written (None: what was read), received data, received time, flag)
    struct Acc<T> {
        space: u64,
        ptr: Ex<T>,
        new: Option<Ex<T>>,
        d: Var,
        t: Var,
        at: Ex<T>,
        flag: Option<Var>,
    }
    let symbolic_time = g.bool();
    let t0 = b.new_var(g, T::from(5u64), Kind::Free);
    inputs.push((t0, if symbolic_time { (0..p).map(T::from).collect() } else { vec![T::from(5u64)] }));
    let mut accs: Vec<Acc<T>> = vec![];
    for i in 0..g.range(2, 6) {
        let ptr = if !accs.is_empty() && g.bool() {
            accs[g.usize(accs.len())].ptr.clone()
        } else {
            ptrs[g.usize(ptrs.len())].clone()
        };
        let space = if two_spaces { 1 + g.below(2) } else { 1 };
        let d = b.new_var(g, T::zero(), Kind::Free);
        let t = b.new_var(g, T::zero(), Kind::Free);
        let new = match g.usize(3) {
            0 => None,
            1 if !accs.is_empty() => Some(Ex::V(accs[g.usize(accs.len())].d)),
            _ => Some(datas[g.usize(datas.len())].clone()),
        };
        let at = if symbolic_time { Ex::V(t0) + Ex::c(i as u64) } else { Ex::c(5 + i as u64) };
        let flag = g.chance(1, 15).then(|| {
            let f = b.new_var(g, T::zero(), Kind::Bit);
            b.assert_zero(Ex::V(f) * (Ex::V(f) - Ex::c(1)));
            inputs.push((f, vec![T::zero(), T::one()]));
            f
        });
        let m = |s: T| flag.map_or(Ex::C(s), |f| Ex::C(s) * Ex::V(f));
        let pa = |d: Ex<T>, t: Ex<T>| vec![Ex::c(space), ptr.clone(), d, t];
        b.sys.bus.push(Bus { id: Ex::c(MEM), mult: m(-T::one()), args: pa(Ex::V(d), Ex::V(t)) });
        b.sys.bus.push(Bus { id: Ex::c(MEM), mult: m(T::one()), args: pa(new.clone().unwrap_or(Ex::V(d)), at.clone()) });
        accs.push(Acc { space, ptr, new, d, t, at, flag });
    }
    let h = TinyBuses::new(2, g.chance(3, 4));
    note_sys(g, &h, &b.sys);
    let cs = b.sys.to_powdr();
    let mut solver = new_solver(cs.clone(), h.clone());
    solver
        .solve()
        .map_err(|e| Failure::new("solver-error", format!("{e:?} on a satisfiable system")))?;
    let after = optimize_memory::<T, Var, TinyMem<T, Var>>(cs.clone(), &mut solver, Some(MEM));
    let removed = cs.bus_interactions.len() - after.bus_interactions.len();
    if removed > 0 {
        g.nontrivial();
    } else {
        g.label("nothing-merged");
    }
    let after = Trans::of_cs(&after);
    g.note(|| format!("result:\n{after}"));
    let pair = Pair::new(&b.sys, &after)?;
    let mut aliased = false;
    for _ in 0..40 {
        // one execution
        let mut w: std::collections::BTreeMap<Var, T> = Default::default();
        for (v, vals) in &inputs {
            // small values are more interesting
            let k = if vals.len() > 3 && g.chance(3, 4) { g.usize(3) } else { g.usize(vals.len()) };
            w.insert(*v, vals[k]);
        }
        let mut mem: std::collections::BTreeMap<(u64, T), (T, T)> = Default::default();
        let tamper = g.chance(1, 3).then(|| g.usize(accs.len()));
        for (i, a) in accs.iter().enumerate() {
            let key = (a.space, a.ptr.eval(&|v| w[&v]));
            let known = mem.get(&key).copied();
            let (mut d, mut t) = known.unwrap_or_else(|| (T::from(g.below(3)), T::from(g.below(4))));
            if tamper == Some(i) {
                if g.bool() { d += T::one() } else { t += T::one() }
            }
            aliased |= known.is_some();
            w.insert(a.d, d);
            w.insert(a.t, t);
            let new = a.new.as_ref().map_or(d, |e| e.eval(&|v| w[&v]));
            if a.flag.is_none_or(|f| w[&f] == T::one()) {
                mem.insert(key, (new, a.at.eval(&|v| w[&v])));
            }
        }
        let row: Vec<T> = pair.ix.vars.iter().map(|v| w.get(v).copied().unwrap_or(T::zero())).collect();
        if !pair.orig.satisfied(&row, &h) {
            return Err(Failure::new("harness", "simulated execution does not satisfy the system"));
        }
        if tamper.is_none() {
            pair.complete_for(&row, &h)?;
        } else if pair.opt.satisfied(&row, &h) {
            ensure_eq!(
                pair.orig.effect(&row, &h),
                pair.opt.effect(&row, &h),
                "new-behaviour",
                "effect of {}", pair.show(&row, &pair.orig_vars)
            );
        }
    }
    if aliased {
        g.label("same-address-twice");
    }
    Ok(())
}
fn c15_pointers(g: &mut Gen) -> CaseResult {
    match g.usize(2) {
        0 => c15_pointers_in::<Fp<23>>(g),
        _ => c15_pointers_in::<Fp<61>>(g),
    }
}
fn c15_tiny(g: &mut Gen) -> CaseResult {
    match g.usize(4) {
        0 => c15::<Fp<13>>(g, 1),
        1 => c15::<Fp<23>>(g, 2),
        2 => c15::<Fp<37>>(g, 2),
        _ => c15::<Fp<29>>(g, 1),
    }
}

fn main() {
    run(vec![
        Property {
            id: "C11",
            rule: "the pass changed the system",
            assumptions: &["prime fields of 13 to 37 elements; solutions are enumerated within a search budget (cases above it are labelled inconclusive / witness-only)", "lookup tables as in TinyBuses (bytes of 1-3 bits)"],
            subs: vec![
                Sub { name: "exhaustive", f: c11_exhaustive, quick: 4_000, thorough: 1_000_000 },
                Sub { name: "correlated", f: c11_correlated, quick: 20_000, thorough: 1_000_000 },
                Sub { name: "disconnected", f: c11_disconnected, quick: 12_000, thorough: 1_000_000 },
                Sub { name: "lowdegree", f: c11_lowdegree, quick: 4_000, thorough: 500_000 },
                Sub { name: "range", f: c11_range, quick: 8_000, thorough: 1_000_000 },
                Sub { name: "lookups-lowdegree", f: c11_lookups_low_degree, quick: 12_000, thorough: 1_000_000 },
                Sub { name: "lookups-range", f: c11_lookups_range, quick: 12_000, thorough: 1_000_000 },
                Sub { name: "pipeline", f: c11_pipeline, quick: 25_000, thorough: 1_000_000 },
                Sub { name: "exec", f: c11_exec, quick: 3_000, thorough: 200_000 },
            ],
        },
        Property {
            id: "C12",
            rule: "the optimizer removed at least one column",
            assumptions: &["prime fields of 13 to 37 elements; all honest original solutions are enumerated when the search budget allows, otherwise only the generated execution is checked", "is-zero results are boolean-constrained by the generator (see known findings)"],
            subs: vec![Sub { name: "tiny", f: c12_tiny, quick: 14_000, thorough: 1_000_000 }],
        },
        Property {
            id: "C13",
            rule: "the optimizer removed at least one column",
            assumptions: &["prime fields of 13 to 37 elements; solutions of the result are enumerated within a search budget (others labelled inconclusive), up to 60 distinct effects per case", "cases in which only the known merge rule defect shows are reported as known finding"],
            subs: vec![
                Sub { name: "is-zero-chain", f: c13_is_zero_chain, quick: 1, thorough: 1 },
                Sub { name: "tiny", f: c13_tiny, quick: 9_000, thorough: 1_000_000 },
            ],
        },
        Property {
            id: "C14",
            rule: "the result has a constraint or bus field at the degree bound",
            assumptions: &["degree bounds at least as large as the degrees of the input circuit", "reproducibility is observed over three runs in one process, whose hash tables are seeded differently"],
            subs: vec![
                Sub { name: "tiny", f: c14_tiny, quick: 20_000, thorough: 1_000_000 },
                Sub { name: "lookups", f: c14_lookups, quick: 60_000, thorough: 2_000_000 },
            ],
        },
        Property {
            id: "C15",
            rule: "at least one pair of memory interactions was merged",
            assumptions: &["prime fields of 13 to 37 elements; memory accesses of a block are consistent (honest executions) for the completeness direction"],
            subs: vec![
                Sub { name: "tiny", f: c15_tiny, quick: 15_000, thorough: 1_000_000 },
                Sub { name: "pointers", f: c15_pointers, quick: 300_000, thorough: 4_000_000 },
            ],
        },
    ]);
}
