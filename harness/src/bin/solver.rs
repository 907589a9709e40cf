//! C04 (range constraints), C05 (expressions), C06 (single constraints), C07 (solver never loses a
//! solution), C08 (solver queries), C09 (inliner and indexed systems), C10 (rule based optimizer).
use harness::engine::{main as run, CaseResult, Failure, Gen, Property, Sub};
use harness::model::*;
use harness::tiny::Fp;
use harness::{ensure, ensure_eq};
use itertools::Itertools;
use powdr_autoprecompiles::expression_conversion::{
    algebraic_to_grouped_expression, grouped_expression_to_algebraic,
};
use powdr_constraint_solver::algebraic_constraint::AlgebraicConstraint;
use powdr_constraint_solver::constraint_system::{
    BusInteraction, ComputationMethod, ConstraintRef, ConstraintSystem, DerivedVariable,
};
use powdr_constraint_solver::effect::Effect;
use powdr_constraint_solver::grouped_expression::{
    GroupedExpression, GroupedExpressionComponent, NoRangeConstraints, RangeConstraintProvider,
};
use powdr_constraint_solver::indexed_constraint_system::{
    apply_substitutions, apply_substitutions_to_expressions, IndexedConstraintSystem,
};
use powdr_constraint_solver::inliner::{
    inline_everything_below_degree_bound, replace_constrained_witness_columns, DegreeBound,
};
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::reachability::{
    reachable_variables, reachable_variables_except_blocked,
};
use powdr_constraint_solver::rule_based_optimizer::rule_based_optimization;
use powdr_constraint_solver::runtime_constant::{RuntimeConstant, VarTransformable};
use powdr_constraint_solver::solver::exhaustive_search::{
    exhaustive_search_on_variable_set, get_brute_force_candidates,
};
use powdr_constraint_solver::solver::{new_solver, Solver};
use powdr_constraint_solver::symbolic_expression::{
    BinaryOperator, SymbolicExpression, UnaryOperator,
};
use powdr_constraint_solver::system_splitter::split_system;
use powdr_constraint_solver::utils::{
    get_all_possible_assignments, has_few_possible_assignments, possible_concrete_values,
};
use powdr_expression::{
    AlgebraicBinaryOperation, AlgebraicBinaryOperator, AlgebraicExpression,
    AlgebraicUnaryOperation, AlgebraicUnaryOperator,
};
use powdr_number::*;
use powdr_verif_harness as harness;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

macro_rules! with_prime {
    ($g:expr, $f:ident, [$($p:literal),*]) => {{
        let fs: &[fn(&mut Gen) -> CaseResult] = &[$($f::<$p>),*];
        let i = $g.usize(fs.len());
        fs[i]($g)
    }};
}

/// Byte width usable in the field.
fn pick_bw<const P: u32>(g: &mut Gen) -> u32 {
    let max = match P {
        0..=10 => 1,
        11..=30 => 2,
        _ => 3,
    };
    g.range(1, max) as u32
}

// ------------------------------------------------------------------------------------- C04

type Rc<T> = RangeConstraint<T>;

/// Random constructor call together with the exact set it is documented to describe.
fn gen_rc<const P: u32>(g: &mut Gen) -> (Rc<Fp<P>>, Vec<bool>, String) {
    let bits = 32 - (P - 1).leading_zeros();
    let set = |f: &dyn Fn(u32) -> bool| (0..P).map(f).collect_vec();
    match g.weighted(&[6, 3, 2, 2, 1]) {
        0 => {
            let (a, b) = (g.below(P as u64) as u32, g.below(P as u64) as u32);
            let s = set(&|x| {
                if a <= b {
                    a <= x && x <= b
                } else {
                    a <= x || x <= b
                }
            });
            (
                Rc::from_range(Fp(a), Fp(b)),
                s,
                format!("from_range({a},{b})"),
            )
        }
        1 => {
            // masks may exceed the modulus
            let m = g.below(1 << (bits + 1)) as u32;
            (
                Rc::from_mask(m as u64),
                set(&|x| x & m == x),
                format!("from_mask({m})"),
            )
        }
        2 => {
            let v = g.below(P as u64) as u32;
            (
                Rc::from_value(Fp(v)),
                set(&|x| x == v),
                format!("from_value({v})"),
            )
        }
        3 => {
            let b = g.usize(bits as usize + 1);
            (
                Rc::from_max_bit(b),
                set(&|x| x >> (b + 1) == 0),
                format!("from_max_bit({b})"),
            )
        }
        _ => (
            Rc::unconstrained(),
            set(&|_| true),
            "unconstrained".to_string(),
        ),
    }
}

/// Consistency of everything that can be asked about a range constraint.
fn rc_queries<const P: u32>(rc: &Rc<Fp<P>>, name: &str) -> CaseResult {
    let allowed: Vec<Fp<P>> = Fp::<P>::all().filter(|v| rc.allows_value(*v)).collect();
    let (min, max) = rc.range();
    for v in &allowed {
        ensure!(v.0 & rc.mask().0 == v.0, "mask", "{name}: {v} vs mask");
        let inr = if min <= max {
            min <= *v && *v <= max
        } else {
            min <= *v || *v <= max
        };
        ensure!(inr, "range", "{name}: allowed {v} not in range {min} {max}");
    }
    ensure!(
        rc.size_estimate().0 as usize >= allowed.len(),
        "size",
        "{name}: size_estimate {} < {}",
        rc.size_estimate(),
        allowed.len()
    );
    let width = if min <= max {
        max.0 - min.0 + 1
    } else {
        P - min.0 + max.0 + 1
    };
    ensure_eq!(rc.range_width().0, width, "width", "{name}");
    if rc.is_unconstrained() {
        ensure_eq!(
            allowed.len(),
            P as usize,
            "is_unconstrained",
            "{name} claims to be unconstrained"
        );
    }
    if let Some(v) = rc.try_to_single_value() {
        ensure_eq!(allowed, vec![v], "single", "{name}");
    }
    let listed: Vec<Fp<P>> = rc.allowed_values().collect();
    let mut sorted = listed.clone();
    sorted.sort();
    ensure_eq!(sorted, allowed, "allowed_values", "{name}");
    Ok(())
}

fn c04_tiny_p<const P: u32>(g: &mut Gen) -> CaseResult {
    // (constraint, set of values that must stay allowed)
    let mut items: Vec<(Rc<Fp<P>>, Vec<bool>, String)> = vec![];
    for _ in 0..2 {
        let (rc, set, name) = gen_rc::<P>(g);
        for x in 0..P {
            ensure_eq!(
                rc.allows_value(Fp(x)),
                set[x as usize],
                "constructor",
                "{name} mod {P} at {x}"
            );
        }
        rc_queries(&rc, &name)?;
        items.push((rc, set, name));
    }
    let steps = g.range(1, 5);
    let mut real = false;
    for _ in 0..steps {
        let i = g.usize(items.len());
        let j = g.usize(items.len());
        let (a, sa, na) = items[i].clone();
        let (b, sb, nb) = items[j].clone();
        let img2 = |f: &dyn Fn(u64, u64) -> u64| {
            let mut s = vec![false; P as usize];
            for x in (0..P as usize).filter(|x| sa[*x]) {
                for y in (0..P as usize).filter(|y| sb[*y]) {
                    s[(f(x as u64, y as u64) % P as u64) as usize] = true;
                }
            }
            s
        };
        let img1 = |f: &dyn Fn(u64) -> u64| {
            let mut s = vec![false; P as usize];
            for x in (0..P as usize).filter(|x| sa[*x]) {
                s[(f(x as u64) % P as u64) as usize] = true;
            }
            s
        };
        let (rc, set, name) = match g.usize(8) {
            0 => (
                a.combine_sum(&b),
                img2(&|x, y| x + y),
                format!("({na}).combine_sum({nb})"),
            ),
            1 => (
                a.combine_product(&b),
                img2(&|x, y| x * y),
                format!("({na}).combine_product({nb})"),
            ),
            2 => (a.square(), img1(&|x| x * x), format!("({na}).square()")),
            3 => (
                a.conjunction(&b),
                (0..P as usize).map(|x| sa[x] && sb[x]).collect_vec(),
                format!("({na}).conjunction({nb})"),
            ),
            4 => (
                a.disjunction(&b),
                (0..P as usize).map(|x| sa[x] || sb[x]).collect_vec(),
                format!("({na}).disjunction({nb})"),
            ),
            5 => {
                let k = g.below(P as u64);
                (
                    a.multiple(Fp(k as u32)),
                    img1(&|x| x * k),
                    format!("({na}).multiple({k})"),
                )
            }
            6 => (-a, img1(&|x| P as u64 - x), format!("-({na})")),
            _ => {
                let dis = a.is_disjoint(&b);
                if dis {
                    for v in Fp::<P>::all() {
                        ensure!(
                            !(a.allows_value(v) && b.allows_value(v)),
                            "is_disjoint",
                            "({na}).is_disjoint({nb}) mod {P} but both allow {v}"
                        );
                    }
                    g.label("disjoint");
                }
                ensure_eq!(dis, b.is_disjoint(&a), "disjoint-sym", "{na} {nb} mod {P}");
                continue;
            }
        };
        for x in 0..P {
            ensure!(
                !set[x as usize] || rc.allows_value(Fp(x)),
                "lost-value",
                "mod {P}: {name} = {rc} forbids {x}"
            );
        }
        rc_queries(&rc, &name)?;
        if !rc.is_unconstrained() {
            real = true;
        }
        items.push((rc, set, name));
    }
    if real {
        g.nontrivial();
    }
    g.note(|| format!("mod {P}: {}", items.last().unwrap().2));
    Ok(())
}
fn c04_tiny(g: &mut Gen) -> CaseResult {
    with_prime!(g, c04_tiny_p, [7, 11, 13, 17, 31, 61, 127])
}

/// Random value of a real field, biased to boundaries.
fn real_val<T: FieldElement>(g: &mut Gen) -> T {
    let half = || (T::from(-1i64)) / T::from(2u64);
    let d = T::from(g.below(4));
    let v = match g.usize(9) {
        0 => T::zero(),
        1 => T::from(-1i64),
        2 => half(),
        3 | 4 => {
            let k = g.usize(T::BITS as usize - 1) as u64;
            T::from(2u64).pow(k.into())
        }
        5 => T::from(g.below(300)),
        6 => -T::from(g.below(300)),
        _ => {
            let k = g.usize(4);
            (0..k).fold(T::from(g.u64() >> 34), |a, _| {
                a * T::from(1u64 << 30) + T::from(g.u64() >> 34)
            })
        }
    };
    if g.bool() {
        v + d
    } else {
        v - d
    }
}

/// (constraint, some values it has to allow)
fn real_rc<T: FieldElement>(g: &mut Gen) -> (Rc<T>, Vec<T>, String) {
    let p1 = (T::from(-1i64)).to_integer();
    match g.weighted(&[6, 4, 2, 1]) {
        0 => {
            let a: T = real_val(g);
            let b: T = if g.bool() {
                real_val(g)
            } else {
                a + T::from(g.below(1000))
            };
            let mut vals = vec![a, b];
            // values at random offset inside
            let width = b - a;
            for _ in 0..4 {
                let o: T = real_val(g);
                if o <= width {
                    vals.push(a + o);
                }
            }
            if a != b {
                vals.push(a + T::one());
                vals.push(b - T::one());
            }
            (Rc::from_range(a, b), vals, format!("from_range({a},{b})"))
        }
        1 => {
            let m: T = real_val(g);
            let mask = m.to_integer();
            let mut vals = vec![T::zero(), m];
            for _ in 0..4 {
                let x: T = real_val(g);
                vals.push(T::from(x.to_integer() & mask));
            }
            (Rc::from_mask(mask), vals, format!("from_mask({m})"))
        }
        2 => {
            let v: T = real_val(g);
            (Rc::from_value(v), vec![v], format!("from_value({v})"))
        }
        _ => {
            let b = g.usize(T::BITS as usize - 1);
            let mut vals = vec![T::zero()];
            let mask = (T::Integer::MAX >> (T::Integer::NUM_BITS - b - 1)) & T::Integer::MAX;
            for _ in 0..4 {
                let x: T = real_val(g);
                let m = x.to_integer() & mask;
                if m <= p1 {
                    vals.push(T::from(m));
                }
            }
            (
                Rc::from_max_bit(b),
                vals,
                format!("from_max_bit({b})"),
            )
        }
    }
}

fn c04_real_t<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let mut items: Vec<(Rc<T>, Vec<T>, String)> = vec![];
    for _ in 0..2 {
        let (rc, vals, name) = real_rc::<T>(g);
        for v in &vals {
            ensure!(rc.allows_value(*v), "constructor", "{name} forbids {v}");
        }
        items.push((rc, vals, name));
    }
    let mut real = false;
    for _ in 0..g.range(1, 4) {
        let i = g.usize(items.len());
        let j = g.usize(items.len());
        let (a, sa, na) = items[i].clone();
        let (b, sb, nb) = items[j].clone();
        let pairs = || sa.iter().cartesian_product(sb.iter());
        let (rc, vals, name) = match g.usize(8) {
            0 => (
                a.combine_sum(&b),
                pairs().map(|(x, y)| *x + *y).collect_vec(),
                format!("({na}).combine_sum({nb})"),
            ),
            1 => (
                a.combine_product(&b),
                pairs().map(|(x, y)| *x * *y).collect_vec(),
                format!("({na}).combine_product({nb})"),
            ),
            2 => (
                a.square(),
                sa.iter().map(|x| *x * *x).collect_vec(),
                format!("({na}).square()"),
            ),
            3 => (
                a.conjunction(&b),
                sa.iter()
                    .filter(|x| b.allows_value(**x))
                    .chain(sb.iter().filter(|x| a.allows_value(**x)))
                    .copied()
                    .collect_vec(),
                format!("({na}).conjunction({nb})"),
            ),
            4 => (
                a.disjunction(&b),
                sa.iter().chain(&sb).copied().collect_vec(),
                format!("({na}).disjunction({nb})"),
            ),
            5 => {
                let k: T = real_val(g);
                (
                    a.multiple(k),
                    sa.iter().map(|x| *x * k).collect_vec(),
                    format!("({na}).multiple({k})"),
                )
            }
            6 => (
                -a,
                sa.iter().map(|x| -*x).collect_vec(),
                format!("-({na})"),
            ),
            _ => {
                if a.is_disjoint(&b) {
                    for v in sa.iter().chain(&sb) {
                        ensure!(
                            !(a.allows_value(*v) && b.allows_value(*v)),
                            "is_disjoint",
                            "({na}).is_disjoint({nb}) but both allow {v}"
                        );
                    }
                }
                continue;
            }
        };
        for v in &vals {
            ensure!(
                rc.allows_value(*v),
                "lost-value",
                "{name} = {rc} forbids {v}"
            );
            if let Some(s) = rc.try_to_single_value() {
                ensure_eq!(s, *v, "single", "{name}");
            }
        }
        if !rc.is_unconstrained() {
            real = true;
        }
        let mut vals = vals;
        vals.truncate(12);
        items.push((rc, vals, name));
    }
    if real {
        g.nontrivial();
    }
    g.note(|| items.last().unwrap().2.clone());
    Ok(())
}
fn c04_real(g: &mut Gen) -> CaseResult {
    match g.usize(5) {
        0 => c04_real_t::<BabyBearField>(g),
        1 => c04_real_t::<GoldilocksField>(g),
        2 => c04_real_t::<Bn254Field>(g),
        3 => c04_real_t::<KoalaBearField>(g),
        _ => c04_real_t::<Mersenne31Field>(g),
    }
}

// ------------------------------------------------------------------------------------- C05

fn gen_ex<T: FieldElement>(g: &mut Gen, nvars: u32, depth: usize) -> Ex<T> {
    if depth == 0 || g.chance(1, 5) {
        return if g.chance(2, 3) {
            Ex::V(Var(g.below(nvars as u64) as u32))
        } else {
            Ex::C(gen_const(g))
        };
    }
    match g.weighted(&[4, 3, 4, 1, 2]) {
        0 => gen_ex(g, nvars, depth - 1) + gen_ex(g, nvars, depth - 1),
        1 => gen_ex(g, nvars, depth - 1) - gen_ex(g, nvars, depth - 1),
        2 => gen_ex(g, nvars, depth - 1) * gen_ex(g, nvars, depth - 1),
        3 => -gen_ex::<T>(g, nvars, depth - 1),
        _ => {
            // cancellations: a - a*k or a * b - b * a
            let a: Ex<T> = gen_ex(g, nvars, depth - 1);
            let b: Ex<T> = gen_ex(g, nvars, depth - 1);
            match g.usize(4) {
                0 => a.clone() * b.clone() - b * a,
                1 => a.clone() - a,
                2 => a.clone() * b.clone() + (-a) * b,
                _ => Ex::C(gen_const(g)) * a,
            }
        }
    }
}

fn points<T: FieldElement>(g: &mut Gen, nvars: u32, n: usize) -> Vec<Vec<T>> {
    (0..n)
        .map(|_| (0..nvars).map(|_| gen_const(g)).collect())
        .collect()
}

fn c05_ops_t<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let nv = g.range(1, 4) as u32;
    let pts = points::<T>(g, nv, 4);
    let many = g.chance(1, 15);
    let da = g.range(1, 4);
    let db = g.range(1, 3);
    let mut a: Ex<T> = gen_ex(g, nv, da);
    let mut b: Ex<T> = gen_ex(g, nv, db);
    if many {
        g.label("more than 20 quadratic terms");
        for i in 0..g.range(10, 14) {
            let x: Ex<T> = gen_ex(g, nv, 1);
            let y = Ex::V(Var(g.below(nv as u64) as u32)) + Ex::c(i as u64 % 7);
            a = a + x.clone() * y.clone();
            b = b - y * x;
        }
    }
    let (ga, gb) = (a.ge(), b.ge());
    g.note(|| format!("a = {a}\n  grouped: {ga}\nb = {b}\n  grouped: {gb}"));
    if ga.is_quadratic() || gb.is_quadratic() {
        g.nontrivial();
    }
    let k: T = gen_const(g);
    let var = Var(g.below(nv as u64) as u32);
    for pt in &pts {
        let w = |v: Var| pt[v.0 as usize];
        let wr = |v: &Var| pt[v.0 as usize];
        let (va, vb) = (a.eval(&w), b.eval(&w));
        let at = |what: &str, e: &GroupedExpression<T, Var>, expected: T| -> CaseResult {
            let got = eval_ge(e, &wr);
            if got != expected {
                return Err(Failure::new(
                    format!("value:{what}"),
                    format!("{what} of a={a} b={b} k={k} var={var} at {pt:?}: result {e} has value {got}, expected {expected}"),
                ));
            }
            Ok(())
        };
        at("construct", &ga, va)?;
        at("add", &(ga.clone() + gb.clone()), va + vb)?;
        at("add-ref", &(&ga + &gb), va + vb)?;
        at("sub", &(ga.clone() - gb.clone()), va - vb)?;
        at("sub-ref", &(&ga - &gb), va - vb)?;
        at("neg", &(-ga.clone()), -va)?;
        at("neg-ref", &(-&ga), -va)?;
        at("scale", &(ga.clone() * k), va * k)?;
        at("scale-ref", &(ga.clone() * &k), va * k)?;
        let mut e = ga.clone();
        e *= &k;
        at("scale-assign", &e, va * k)?;
        let mut e = ga.clone();
        e += gb.clone();
        at("add-assign", &e, va + vb)?;
        at("mul", &(ga.clone() * gb.clone()), va * vb)?;
        at(
            "sum",
            &[ga.clone(), gb.clone(), ga.clone()].into_iter().sum(),
            va + vb + va,
        )?;
        // substitution
        let mut pk = pt.clone();
        pk[var.0 as usize] = k;
        let vak = a.eval(&|v: Var| pk[v.0 as usize]);
        let mut e = ga.clone();
        e.substitute_simple(&var, k);
        at("substitute_simple", &e, vak)?;
        ensure!(
            !e.referenced_unknown_variables().contains(&var),
            "subst-var",
            "substitute_simple leaves {var} in {e}"
        );
        let mut e = ga.clone();
        e.substitute_by_known(&var, &k);
        at("substitute_by_known", &e, vak)?;
        ensure!(
            !e.referenced_unknown_variables().contains(&var),
            "subst-var",
            "substitute_by_known leaves {var} in {e}"
        );
        let all: BTreeMap<Var, T> = (0..nv).map(|i| (Var(i), pt[i as usize])).collect();
        let e = ga.clone().substitute_by_known_multi(&all);
        ensure_eq!(
            e.try_to_number(),
            Some(va),
            "value:substitute_multi",
            "{a} at {pt:?}"
        );
        let mut pb = pt.clone();
        pb[var.0 as usize] = vb;
        let vab = a.eval(&|v: Var| pb[v.0 as usize]);
        let mut e = ga.clone();
        e.substitute_by_unknown(&var, &gb);
        at("substitute_by_unknown", &e, vab)?;
        // parts
        let comps: GroupedExpression<T, Var> = ga
            .clone()
            .into_summands()
            .map(GroupedExpression::from)
            .sum();
        at("into_summands", &comps, va)?;
        let by_comp = ga.clone().into_summands().fold(T::zero(), |s, c| {
            s + match c {
                GroupedExpressionComponent::Quadratic(l, r) => eval_ge(&l, &wr) * eval_ge(&r, &wr),
                GroupedExpressionComponent::Linear(v, c) => c * wr(&v),
                GroupedExpressionComponent::Constant(c) => c,
            }
        });
        ensure_eq!(by_comp, va, "value:components", "{a}");
        if let Some((h, t)) = ga.clone().try_split_head_tail() {
            at("split_head_tail", &(h + t), va)?;
        }
        if let Some((l, r)) = ga.try_as_single_product() {
            ensure_eq!(
                eval_ge(l, &wr) * eval_ge(r, &wr),
                va,
                "value:single_product",
                "{a}"
            );
        }
        if let Some((c, rest)) = ga.try_extract_affine_var(var) {
            at(
                "extract_affine",
                &(GroupedExpression::from_unknown_variable(var) * c + rest.clone()),
                va,
            )?;
            ensure!(
                !rest.referenced_unknown_variables().contains(&var),
                "extract-var",
                "{rest} still has {var}"
            );
        }
        if let Some(n) = ga.try_to_number() {
            ensure_eq!(n, va, "value:try_to_number", "{a}");
        }
        if let Some(v) = ga.try_to_simple_unknown() {
            ensure_eq!(wr(&v), va, "value:try_to_simple_unknown", "{a}");
        }
        if ga.is_affine() {
            let s = ga
                .linear_components()
                .fold(*ga.constant_offset(), |s, (v, c)| s + *c * wr(v));
            ensure_eq!(s, va, "value:affine", "{a}");
        }
        // conversion to algebraic expressions and back
        let alg = grouped_expression_to_algebraic(ga.clone());
        ensure_eq!(eval_alg(&alg, &wr), va, "value:to_algebraic", "{a} -> {ga}");
        let back = algebraic_to_grouped_expression(&alg);
        at("algebraic-roundtrip", &back, va)?;
        let alg2 = ex_to_alg(&a);
        ensure_eq!(eval_alg(&alg2, &wr), va, "value:algebraic", "{a}");
        at(
            "algebraic_to_grouped",
            &algebraic_to_grouped_expression(&alg2),
            va,
        )?;
        let t: GroupedExpression<T, (u32, u8)> = ga.transform_var_type(&mut |v| (100 - v.0, 1));
        ensure_eq!(
            eval_ge(&t, &|v: &(u32, u8)| pt[(100 - v.0) as usize]),
            va,
            "value:transform_var_type",
            "{a}"
        );
        if ga.is_zero_expr() {
            ensure_eq!(va, T::zero(), "value:is_zero", "{a}");
        }
    }
    // equality is semantic in one direction
    if ga == gb {
        for pt in &pts {
            ensure_eq!(
                a.eval(&|v| pt[v.0 as usize]),
                b.eval(&|v| pt[v.0 as usize]),
                "equal",
                "{a} {b}"
            );
        }
    }
    // factors: self = c * prod(f_i) for one constant c
    let factors = ga.to_factors();
    let mut ratio: Option<T> = None;
    for pt in &pts {
        let wr = |v: &Var| pt[v.0 as usize];
        let prod = factors
            .iter()
            .fold(T::one(), |p, f| p * eval_ge(f, &wr));
        let va = eval_ge(&ga, &wr);
        if prod == T::zero() || va == T::zero() {
            ensure_eq!(
                prod == T::zero(),
                va == T::zero(),
                "value:to_factors",
                "{ga} -> {} at {pt:?}",
                factors.iter().format(" ; ")
            );
        } else {
            let r = va / prod;
            if let Some(r0) = ratio {
                ensure_eq!(
                    r,
                    r0,
                    "value:to_factors",
                    "{ga} -> {}",
                    factors.iter().format(" ; ")
                );
            }
            ratio = Some(r);
        }
    }
    // variables
    let refd: BTreeSet<Var> = ga.referenced_unknown_variables().copied().collect();
    let mut av = BTreeSet::new();
    a.vars(&mut av);
    ensure!(refd.is_subset(&av), "vars", "{ga} has more variables than {a}");
    // a variable not referenced must not influence the value
    for pt in &pts {
        let mut q = pt.clone();
        for i in 0..nv {
            if !refd.contains(&Var(i)) {
                q[i as usize] = q[i as usize] + T::one();
            }
        }
        ensure_eq!(
            a.eval(&|v| pt[v.0 as usize]),
            a.eval(&|v| q[v.0 as usize]),
            "vars",
            "{a} depends on variable not reported in {ga}"
        );
    }
    // degree is an upper bound: (d+1)-th finite difference along a line vanishes
    let d = ga.degree();
    degree_check(g, &a, d, nv, None, &pts)?;
    let dv = ga.degree_of_variable(&var);
    degree_check(g, &a, dv, nv, Some(var), &pts)?;
    Ok(())
}

trait IsZeroExpr {
    fn is_zero_expr(&self) -> bool;
}
impl<T: FieldElement> IsZeroExpr for GroupedExpression<T, Var> {
    fn is_zero_expr(&self) -> bool {
        AlgebraicConstraint::assert_zero(self.clone()).is_redundant()
    }
}

/// If `e` has degree <= d (in all variables / in `var`), its (d+1)-th finite difference along every
/// line is zero.
fn degree_check<T: FieldElement>(
    g: &mut Gen,
    e: &Ex<T>,
    d: usize,
    nv: u32,
    var: Option<Var>,
    pts: &[Vec<T>],
) -> CaseResult {
    let p = T::modulus().try_into_u64().unwrap_or(u64::MAX);
    if d as u64 + 2 >= p || d > 12 {
        return Ok(());
    }
    let dir: Vec<T> = (0..nv)
        .map(|i| match var {
            None => nonzero(gen_const(g)),
            Some(v) => {
                if v.0 == i {
                    T::one()
                } else {
                    T::zero()
                }
            }
        })
        .collect();
    let pt = &pts[0];
    let mut vals: Vec<T> = (0..=d + 1)
        .map(|t| {
            e.eval(&|v: Var| pt[v.0 as usize] + dir[v.0 as usize] * T::from(t as u64))
        })
        .collect();
    for _ in 0..=d {
        vals = vals.windows(2).map(|x| x[1] - x[0]).collect();
    }
    ensure_eq!(
        vals[0],
        T::zero(),
        "degree",
        "{e} reported degree {d} (var {var:?})"
    );
    Ok(())
}

fn eval_alg<T: FieldElement>(e: &AlgebraicExpression<T, Var>, w: &impl Fn(&Var) -> T) -> T {
    match e {
        AlgebraicExpression::Number(n) => *n,
        AlgebraicExpression::Reference(r) => w(r),
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let (l, r) = (eval_alg(left, w), eval_alg(right, w));
            match op {
                AlgebraicBinaryOperator::Add => l + r,
                AlgebraicBinaryOperator::Sub => l - r,
                AlgebraicBinaryOperator::Mul => l * r,
            }
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { op, expr }) => match op {
            AlgebraicUnaryOperator::Minus => -eval_alg(expr, w),
        },
    }
}

fn ex_to_alg<T: FieldElement>(e: &Ex<T>) -> AlgebraicExpression<T, Var> {
    match e {
        Ex::C(c) => AlgebraicExpression::Number(*c),
        Ex::V(v) => AlgebraicExpression::Reference(*v),
        Ex::Add(a, b) => ex_to_alg(a) + ex_to_alg(b),
        Ex::Sub(a, b) => ex_to_alg(a) - ex_to_alg(b),
        Ex::Mul(a, b) => ex_to_alg(a) * ex_to_alg(b),
        Ex::Neg(a) => -ex_to_alg(a),
    }
}

fn c05_ops(g: &mut Gen) -> CaseResult {
    match g.usize(8) {
        0 => c05_ops_t::<Fp<7>>(g),
        1 => c05_ops_t::<Fp<13>>(g),
        2 => c05_ops_t::<Fp<127>>(g),
        3 => c05_ops_t::<BabyBearField>(g),
        4 => c05_ops_t::<GoldilocksField>(g),
        5 => c05_ops_t::<KoalaBearField>(g),
        6 => c05_ops_t::<Mersenne31Field>(g),
        _ => c05_ops_t::<Bn254Field>(g),
    }
}

/// Expressions with run-time constants.
type Sym<T> = SymbolicExpression<T, Var>;
fn eval_sym<T: FieldElement>(e: &Sym<T>, w: &impl Fn(&Var) -> T) -> Option<T> {
    let v = match e {
        SymbolicExpression::Concrete(c) => *c,
        SymbolicExpression::Symbol(v, rc) => {
            let x = w(v);
            if !rc.allows_value(x) {
                return None;
            }
            x
        }
        SymbolicExpression::BinaryOperation(l, op, r, _) => {
            let (l, r) = (eval_sym(l, w)?, eval_sym(r, w)?);
            match op {
                BinaryOperator::Add => l + r,
                BinaryOperator::Sub => l - r,
                BinaryOperator::Mul => l * r,
                BinaryOperator::Div => {
                    if r == T::zero() {
                        return None;
                    }
                    l / r
                }
            }
        }
        SymbolicExpression::UnaryOperation(UnaryOperator::Neg, e, _) => -eval_sym(e, w)?,
    };
    Some(v)
}
fn eval_gsym<T: FieldElement>(
    e: &GroupedExpression<Sym<T>, Var>,
    w: &impl Fn(&Var) -> T,
) -> Option<T> {
    let mut s = eval_sym(e.constant_offset(), w)?;
    for (v, c) in e.linear_components() {
        s += eval_sym(c, w)? * w(v);
    }
    for (l, r) in e.quadratic_components() {
        s += eval_gsym(l, w)? * eval_gsym(r, w)?;
    }
    Some(s)
}
/// Every run-time constant inside has to satisfy its own range constraint.
fn sym_rcs_ok<T: FieldElement>(e: &Sym<T>, w: &impl Fn(&Var) -> T) -> CaseResult {
    for c in e.all_children() {
        if let Some(v) = eval_sym(c, w) {
            ensure!(
                c.range_constraint().allows_value(v),
                "sym-rc",
                "range constraint {} of run-time constant {c} forbids its value {v}",
                c.range_constraint()
            );
        }
    }
    Ok(())
}

fn c05_sym_p<const P: u32>(g: &mut Gen) -> CaseResult {
    // variables 0..k are known symbols with range constraints, k..n unknown
    let nk = g.range(1, 2) as u32;
    let nu = g.range(1, 3) as u32;
    let n = nk + nu;
    let rcs: Vec<Rc<Fp<P>>> = (0..nk)
        .map(|_| {
            let a = g.below(P as u64) as u32;
            let b = g.below(P as u64) as u32;
            if g.bool() {
                Rc::from_range(Fp(a.min(b)), Fp(a.max(b)))
            } else {
                Rc::unconstrained()
            }
        })
        .collect();
    let vals: Vec<Fp<P>> = (0..n)
        .map(|i| {
            if i < nk {
                let allowed: Vec<_> = rcs[i as usize].allowed_values().collect();
                *g.pick(&allowed)
            } else {
                gen_const(g)
            }
        })
        .collect();
    let w = |v: &Var| vals[v.0 as usize];
    fn build<const P: u32>(
        e: &Ex<Fp<P>>,
        nk: u32,
        rcs: &[Rc<Fp<P>>],
    ) -> GroupedExpression<Sym<Fp<P>>, Var> {
        match e {
            Ex::C(c) => GroupedExpression::from_number(*c),
            Ex::V(v) if v.0 < nk => {
                GroupedExpression::from_known_symbol(*v, rcs[v.0 as usize])
            }
            Ex::V(v) => GroupedExpression::from_unknown_variable(*v),
            Ex::Add(a, b) => build(a, nk, rcs) + build(b, nk, rcs),
            Ex::Sub(a, b) => build(a, nk, rcs) - build(b, nk, rcs),
            Ex::Mul(a, b) => build(a, nk, rcs) * build(b, nk, rcs),
            Ex::Neg(a) => -build(a, nk, rcs),
        }
    }
    let d = g.range(1, 4);
    let a: Ex<Fp<P>> = gen_ex(g, n, d);
    let ga = build(&a, nk, &rcs);
    let va = a.eval(&|v| w(&v));
    g.note(|| format!("{a} with known v0..v{}: {ga}", nk - 1));
    let check = |what: &str, e: &GroupedExpression<Sym<Fp<P>>, Var>, expected: Fp<P>| -> CaseResult {
        if let Some(v) = eval_gsym(e, &w) {
            ensure_eq!(v, expected, format!("sym:{what}"), "{a} -> {e} at {vals:?}");
        }
        sym_rcs_ok(e.constant_offset(), &w)?;
        for (_, c) in e.linear_components() {
            sym_rcs_ok(c, &w)?;
        }
        Ok(())
    };
    check("construct", &ga, va)?;
    if ga.is_quadratic() || ga.linear_components().len() > 0 {
        g.nontrivial();
    }
    // substitute an unknown by a known expression
    let x = Var(nk + g.below(nu as u64) as u32);
    let de = g.range(1, 2);
    let b: Ex<Fp<P>> = gen_ex(g, nk, de);
    let gb = build(&b, nk, &rcs);
    let vb = b.eval(&|v| w(&v));
    let kb = gb.try_to_known().unwrap().clone();
    let vab = a.eval(&|v| if v == x { vb } else { w(&v) });
    let mut e = ga.clone();
    e.substitute_by_known(&x, &kb);
    check("substitute_by_known", &e, vab)?;
    // substitute an unknown by an unknown expression
    let c: Ex<Fp<P>> = gen_ex(g, n, 2);
    let gc = build(&c, nk, &rcs);
    let vc = c.eval(&|v| w(&v));
    let vac = a.eval(&|v| if v == x { vc } else { w(&v) });
    let mut e = ga.clone();
    e.substitute_by_unknown(&x, &gc);
    check("substitute_by_unknown", &e, vac)?;
    // Substitute a known symbol by a constant of its range.
    let s = Var(g.below(nk as u64) as u32);
    let mut e = ga.clone();
    e.substitute_by_known(&s, &SymbolicExpression::Concrete(w(&s)));
    check("substitute_symbol", &e, va)?;
    // division
    if kb.is_known_nonzero() {
        let q = SymbolicExpression::Concrete(Fp(1)).field_div(&kb);
        if let Some(v) = eval_sym(&q, &w) {
            ensure_eq!(v * vb, Fp(1), "sym:div", "1 / {kb}");
        }
        sym_rcs_ok(&q, &w)?;
        ensure!(vb != Fp(0), "sym:nonzero", "{kb} claimed nonzero");
    }
    if kb.is_known_zero() {
        ensure_eq!(vb, Fp(0), "sym:zero", "{kb}");
    }
    // range constraint of the whole expression with unknown variables unconstrained
    let rc = ga.range_constraint(&NoRangeConstraints);
    ensure!(
        rc.allows_value(va),
        "sym:rc",
        "range constraint {rc} of {ga} forbids {va}"
    );
    Ok(())
}
fn c05_sym(g: &mut Gen) -> CaseResult {
    with_prime!(g, c05_sym_p, [7, 13, 31, 127])
}

/// Range constraints and enumeration of possible values of expressions.
fn c05_values_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let nv = g.range(1, 3) as u32;
    let d = g.range(1, 3);
    let a: Ex<Fp<P>> = gen_ex(g, nv, d);
    let ga = a.ge();
    let mut rcs: HashMap<Var, Rc<Fp<P>>> = HashMap::new();
    let mut doms = vec![];
    for i in 0..nv {
        let rc = small_rc::<P>(g, 8);
        doms.push(rc.allowed_values().collect_vec());
        rcs.insert(Var(i), rc);
    }
    if doms.iter().any(|d| d.is_empty()) {
        return Ok(());
    }
    g.note(|| format!("{a} under {}", rcs.iter().map(|(v, r)| format!("{v}: {r}")).format(", ")));
    let mut vals = BTreeSet::new();
    let rc = ga.range_constraint(&rcs);
    for pt in doms.iter().map(|d| d.iter().copied()).multi_cartesian_product() {
        let v = a.eval(&|v: Var| pt[v.0 as usize]);
        ensure!(
            rc.allows_value(v),
            "range_constraint",
            "range constraint {rc} of {ga} forbids {v} (at {pt:?})"
        );
        vals.insert(v);
    }
    if !rc.is_unconstrained() && !ga.is_affine() {
        g.label("non-affine constrained");
    }
    if vals.len() > 1 {
        g.nontrivial();
    }
    let limit = 1 + g.below(600);
    let vars = ga.referenced_unknown_variables().copied().collect_vec();
    let few = has_few_possible_assignments(vars.iter().copied(), &rcs, limit);
    let dup: u64 = vars
        .iter()
        .map(|v| rcs[v].size_estimate().0 as u64)
        .product();
    ensure_eq!(few, dup <= limit, "few", "{vars:?} limit {limit}");
    if let Some(it) = possible_concrete_values(&ga, &rcs, limit) {
        let got: BTreeSet<Fp<P>> = it.collect();
        // values the expression can take
        ensure!(
            vals.is_subset(&got),
            "possible_values",
            "possible_concrete_values of {ga} misses a value: {got:?} vs {vals:?}"
        );
        // repeated variables are enumerated consistently, so the sets agree
        ensure_eq!(got, vals, "possible_values_extra", "{ga}");
    }
    let uniq: BTreeSet<Var> = vars.iter().copied().collect();
    let assignments = get_all_possible_assignments(uniq.iter().copied(), &rcs).collect_vec();
    let set: BTreeSet<Vec<Fp<P>>> = assignments
        .iter()
        .map(|m| m.values().copied().collect())
        .collect();
    let expected: usize = uniq.iter().map(|v| doms[v.0 as usize].len()).product();
    if !uniq.is_empty() {
        ensure_eq!(set.len(), expected, "assignments", "{uniq:?}");
        ensure_eq!(assignments.len(), expected, "assignments", "{uniq:?}");
    }
    for m in &assignments {
        for (v, x) in m {
            ensure!(rcs[v].allows_value(*x), "assignments", "{v} {x}");
        }
    }
    Ok(())
}
fn c05_values(g: &mut Gen) -> CaseResult {
    with_prime!(g, c05_values_p, [7, 13, 31, 61, 127])
}

/// A range constraint with at most `max` values or (sometimes) unconstrained.
fn small_rc<const P: u32>(g: &mut Gen, max: u64) -> Rc<Fp<P>> {
    match g.weighted(&[4, 3, 2, 1, 1]) {
        0 => {
            let a: Fp<P> = gen_const(g);
            let w = g.below(max.min(P as u64));
            Rc::from_range(a, a + Fp(w as u32))
        }
        1 => {
            let bits = g.below(4);
            let m = ((1u64 << bits) - 1).min(P as u64 - 1);
            Rc::from_mask(m)
        }
        2 => Rc::from_mask(g.below(P as u64) & g.below(P as u64)),
        3 => Rc::from_value(gen_const(g)),
        _ => Rc::unconstrained(),
    }
}

// ------------------------------------------------------------------------------------- C06

/// A single constraint's expression, biased to the shapes the solver knows.
fn single_ex<const P: u32>(g: &mut Gen, nv: u32) -> Ex<Fp<P>> {
    let aff = |g: &mut Gen, k: usize| -> Ex<Fp<P>> {
        let mut e: Ex<Fp<P>> = Ex::C(gen_const(g));
        for _ in 0..g.range(1, k) {
            let v = Ex::V(Var(g.below(nv as u64) as u32));
            let c: Fp<P> = match g.usize(4) {
                0 => Fp(1),
                1 => -Fp(1),
                2 => Fp((1u32 << g.below(5)) % P),
                _ => gen_const(g),
            };
            e = e + Ex::C(c) * v;
        }
        e
    };
    match g.weighted(&[4, 4, 2, 2]) {
        0 => aff(g, 3),
        1 => aff(g, 2) * aff(g, 2),
        2 => {
            let a = aff(g, 1);
            let b = aff(g, 2);
            let c = aff(g, 2);
            a * b * c
        }
        _ => gen_ex(g, nv, 3),
    }
}

fn c06_solve_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let nv = g.range(1, 3) as u32;
    let e = single_ex::<P>(g, nv);
    let ge = e.ge();
    let mut rcs: HashMap<Var, Rc<Fp<P>>> = HashMap::new();
    let mut doms: Vec<Vec<Fp<P>>> = vec![];
    for i in 0..nv {
        if g.chance(4, 5) {
            let rc = small_rc::<P>(g, 10);
            rcs.insert(Var(i), rc);
            doms.push(rc.allowed_values().collect());
        } else {
            doms.push(Fp::<P>::all().collect());
        }
    }
    g.note(|| {
        format!(
            "mod {P}: {e} = 0 i.e. {ge} = 0 under {}",
            rcs.iter().map(|(v, r)| format!("{v}: {r}")).sorted().format(", ")
        )
    });
    let mut all: Vec<Vec<Fp<P>>> = vec![vec![]];
    for d in &doms {
        all = all
            .into_iter()
            .flat_map(|p| {
                d.iter().map(move |x| {
                    let mut p = p.clone();
                    p.push(*x);
                    p
                })
            })
            .collect();
        if all.len() > 40_000 {
            return Ok(());
        }
    }
    let sols: Vec<&Vec<Fp<P>>> = all
        .iter()
        .filter(|p| e.eval(&|v: Var| p[v.0 as usize]) == Fp(0))
        .collect();
    let c = AlgebraicConstraint::assert_zero(&ge);
    match c.solve(&rcs) {
        Err(_) => {
            g.label("err");
            ensure!(
                sols.is_empty(),
                "solve-err",
                "solve reports unsatisfiable but {:?} solves {ge} = 0",
                sols[0]
            );
            g.nontrivial();
        }
        Ok(r) => {
            if !r.effects.is_empty() {
                g.nontrivial();
            }
            for eff in &r.effects {
                for s in &sols {
                    ensure!(
                        effect_holds(eff, &|v: &Var| s[v.0 as usize]),
                        "effect",
                        "effect {} does not hold for solution {s:?} of {ge} = 0",
                        show_effect(eff)
                    );
                }
            }
            if r.complete {
                g.label("complete");
                for p in &all {
                    if r.effects
                        .iter()
                        .all(|f| effect_holds(f, &|v: &Var| p[v.0 as usize]))
                    {
                        ensure!(
                            e.eval(&|v: Var| p[v.0 as usize]) == Fp(0),
                            "complete",
                            "claimed complete, but {p:?} satisfies the effects {} and not {ge} = 0",
                            r.effects.iter().map(|e| show_effect(e)).format(", ")
                        );
                    }
                }
            }
        }
    }
    // Solving for a variable
    for i in 0..nv {
        if let Some(sol) = c.try_solve_for(&Var(i)) {
            ensure!(
                !sol.referenced_unknown_variables().contains(&Var(i)),
                "solve_for-var",
                "{sol} references v{i}"
            );
            for p in all.iter().take(3000) {
                let w = |v: &Var| p[v.0 as usize];
                let zero = e.eval(&|v| w(&v)) == Fp(0);
                let eq = eval_ge(&sol, &w) == w(&Var(i));
                ensure_eq!(
                    zero,
                    eq,
                    "solve_for",
                    "{ge} = 0 solved for v{i} gives {sol}, at {p:?}"
                );
            }
        }
    }
    // Solving for an affine expression
    let f = single_affine::<P>(g, nv, &e);
    let gf = f.ge();
    if gf.is_affine() {
        if let Some(sol) = c.try_solve_for_expr(&gf) {
            g.label("solve_for_expr");
            for p in all.iter().take(3000) {
                let w = |v: &Var| p[v.0 as usize];
                let zero = e.eval(&|v| w(&v)) == Fp(0);
                let eq = eval_ge(&sol, &w) == f.eval(&|v| w(&v));
                ensure_eq!(
                    zero,
                    eq,
                    "solve_for_expr",
                    "{ge} = 0 solved for {gf} gives {sol}, at {p:?}"
                );
            }
        }
    }
    Ok(())
}

fn single_affine<const P: u32>(g: &mut Gen, nv: u32, e: &Ex<Fp<P>>) -> Ex<Fp<P>> {
    if g.bool() {
        // part of the expression
        let ge = e.ge();
        let mut out: Ex<Fp<P>> = Ex::C(gen_const(g));
        for (v, c) in ge.linear_components() {
            if g.bool() {
                out = out + Ex::C(*c) * Ex::V(*v);
            }
        }
        Ex::C(nonzero(gen_const(g))) * out
    } else {
        let mut out: Ex<Fp<P>> = Ex::C(gen_const(g));
        for _ in 0..g.range(1, 2) {
            out = out + Ex::C(gen_const(g)) * Ex::V(Var(g.below(nv as u64) as u32));
        }
        out
    }
}

fn effect_holds<T: FieldElement>(e: &Effect<T, Var>, w: &impl Fn(&Var) -> T) -> bool {
    match e {
        Effect::Assignment(v, x) => w(v) == *x,
        Effect::RangeConstraint(v, rc) => rc.allows_value(w(v)),
        Effect::Assertion(a) => (a.lhs == a.rhs) == a.expected_equal,
        Effect::ConditionalAssignment {
            variable,
            condition,
            in_range_value,
            out_of_range_value,
        } => {
            let x = if condition.condition.allows_value(condition.value) {
                in_range_value
            } else {
                out_of_range_value
            };
            w(variable) == *x
        }
    }
}
fn show_effect<T: FieldElement>(e: &Effect<T, Var>) -> String {
    match e {
        Effect::Assignment(v, x) => format!("{v} := {x}"),
        Effect::RangeConstraint(v, rc) => format!("{v} in {rc}"),
        Effect::Assertion(a) => format!("assert {} {} {}", a.lhs, a.expected_equal, a.rhs),
        Effect::ConditionalAssignment {
            variable,
            condition,
            in_range_value,
            out_of_range_value,
        } => format!(
            "{variable} := if {} in {} then {in_range_value} else {out_of_range_value}",
            condition.value, condition.condition
        ),
    }
}
fn c06_solve(g: &mut Gen) -> CaseResult {
    with_prime!(g, c06_solve_p, [7, 13, 17, 31, 61, 127])
}

/// A single bus interaction with affine arguments.
fn c06_bus_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let bw = pick_bw::<P>(g);
    let handler = TinyBuses::<Fp<P>>::new(bw, g.chance(2, 3));
    let nv = g.range(1, 3) as u32;
    let mut rcs: HashMap<Var, Rc<Fp<P>>> = HashMap::new();
    let mut doms: Vec<Vec<Fp<P>>> = vec![];
    for i in 0..nv {
        if g.chance(4, 5) {
            let rc = small_rc::<P>(g, 8);
            rcs.insert(Var(i), rc);
            doms.push(rc.allowed_values().collect());
        } else {
            doms.push(Fp::<P>::all().collect());
        }
    }
    let id = *g.pick(&[RANGE, VARRANGE, BITWISE, TUPLE, FREE]);
    let n = handler.table(id).map(|t| t[0].len()).unwrap_or(2);
    let arg = |g: &mut Gen| -> Ex<Fp<P>> {
        match g.usize(5) {
            0 => Ex::C(gen_const(g)),
            1 | 2 => Ex::V(Var(g.below(nv as u64) as u32)),
            3 => single_ex::<P>(g, nv),
            _ => {
                let a: Fp<P> = gen_const(g);
                let b: Fp<P> = gen_const(g);
                Ex::C(a) * Ex::V(Var(g.below(nv as u64) as u32)) + Ex::C(b)
            }
        }
    };
    let mut args: Vec<Ex<Fp<P>>> = (0..n).map(|_| arg(g)).collect();
    if id == BITWISE && g.chance(2, 3) {
        args[3] = Ex::c(g.below(2));
    }
    if id == VARRANGE && g.chance(2, 3) {
        args[1] = Ex::c(g.below(bw as u64 + 2));
    }
    let mult = match g.usize(4) {
        0 | 1 => Ex::c(1),
        2 => Ex::V(Var(g.below(nv as u64) as u32)),
        _ => Ex::C(gen_const(g)),
    };
    let sys = Sys {
        alg: vec![],
        bus: vec![Bus {
            id: Ex::c(id),
            mult,
            args,
        }],
    };
    let ps = sys.to_powdr();
    g.note(|| format!("mod {P} bw {bw}: {sys}"));
    let mut ix = Index::new();
    for i in 0..nv {
        ix.get(&Var(i));
    }
    let cs = CSys::of_sys(&sys, &mut ix);
    let mut all: Vec<Vec<Fp<P>>> = vec![vec![]];
    for d in &doms {
        all = all
            .into_iter()
            .flat_map(|p| {
                d.iter().map(move |x| {
                    let mut p = p.clone();
                    p.push(*x);
                    p
                })
            })
            .collect();
        if all.len() > 20_000 {
            return Ok(());
        }
    }
    let sols: Vec<&Vec<Fp<P>>> = all.iter().filter(|p| cs.satisfied(p, &handler)).collect();
    match ps.bus_interactions[0].solve(&handler, &rcs) {
        Err(_) => {
            ensure!(
                sols.is_empty(),
                "bus-err",
                "bus interaction reported as violated but {:?} satisfies {sys}",
                sols[0]
            );
            g.nontrivial();
        }
        Ok(effects) => {
            if !effects.is_empty() && !sols.is_empty() {
                g.nontrivial();
            }
            for eff in &effects {
                for s in &sols {
                    ensure!(
                        effect_holds(eff, &|v: &Var| s[v.0 as usize]),
                        "bus-effect",
                        "effect {} does not hold for {s:?} which satisfies {sys}",
                        show_effect(eff)
                    );
                }
            }
        }
    }
    Ok(())
}
fn c06_bus(g: &mut Gen) -> CaseResult {
    with_prime!(g, c06_bus_p, [7, 13, 31, 61])
}

// ------------------------------------------------------------------------------------- C07, C08

struct Solved<const P: u32> {
    ix: Index<Var>,
    sols: Vec<Vec<Fp<P>>>,
}

fn enumerate<const P: u32>(
    sys: &Sys<Fp<P>>,
    sem: &TinyBuses<Fp<P>>,
    limit: usize,
) -> Option<Solved<P>> {
    let mut ix = Index::new();
    for v in sys.vars() {
        ix.get(&v);
    }
    let cs = CSys::of_sys(sys, &mut ix);
    let sols = cs.solutions(P as u64, sem, limit)?;
    Some(Solved { ix, sols })
}

const LIMIT: usize = 120_000;

/// Random system; returns it with all its solutions.
fn tiny_case<const P: u32>(
    g: &mut Gen,
    max_vars: usize,
    n: usize,
) -> Option<(Builder<Fp<P>>, TinyBuses<Fp<P>>, Solved<P>)> {
    let bw = pick_bw::<P>(g);
    let handler = TinyBuses::<Fp<P>>::new(bw, g.chance(2, 3));
    let b = gen_system::<Fp<P>>(g, bw, max_vars, n);
    let s = enumerate::<P>(&b.sys, &handler, LIMIT)?;
    if s.sols.len() > 5000 {
        return None;
    }
    Some((b, handler, s))
}

fn check_solver_state<const P: u32, S: Solver<Fp<P>, Var>>(
    solver: &S,
    s: &Solved<P>,
    sols: &[&Vec<Fp<P>>],
    what: &str,
) -> CaseResult {
    for (i, v) in s.ix.vars.iter().enumerate() {
        let rc = solver.get(v);
        for w in sols {
            ensure!(
                rc.allows_value(w[i]),
                "solver-range",
                "{what}: solver range constraint {rc} for {v} forbids the value {} of solution {}",
                w[i],
                show(&s.ix, w)
            );
        }
    }
    Ok(())
}

fn show<T: FieldElement>(ix: &Index<Var>, w: &[T]) -> String {
    ix.vars
        .iter()
        .zip(w)
        .map(|(v, x)| format!("{v}={x}"))
        .format(" ")
        .to_string()
}

fn check_assignments<const P: u32>(
    asg: &[(Var, GroupedExpression<Fp<P>, Var>)],
    s: &Solved<P>,
    sols: &[&Vec<Fp<P>>],
) -> CaseResult {
    for (v, e) in asg {
        let Some(i) = s.ix.of.get(v) else {
            return Err(Failure::new("unknown-var", format!("assignment to {v}")));
        };
        for u in e.referenced_unknown_variables() {
            ensure!(
                s.ix.of.contains_key(u),
                "unknown-var",
                "assignment {v} := {e} uses a variable that is not in the system"
            );
        }
        for w in sols {
            let x = eval_ge(e, &|u: &Var| w[s.ix.of[u]]);
            ensure!(
                x == w[*i],
                "solver-assignment",
                "assignment {v} := {e} contradicts solution {}",
                show(&s.ix, w)
            );
        }
    }
    Ok(())
}

fn c07_system_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let mv = g.range(2, 8);
    let Some((b, handler, s)) = tiny_case::<P>(g, mv, 7) else {
        g.label("skipped: too many solutions");
        return Ok(());
    };
    g.note(|| {
        format!(
            "mod {P}, bw {}, precise {}, {} solutions:\n{}",
            b.bw,
            handler.precise,
            s.sols.len(),
            b.sys
        )
    });
    ensure!(
        !s.sols.is_empty(),
        "harness",
        "generated witness is not a solution of {}",
        b.sys
    );
    let sols: Vec<&Vec<Fp<P>>> = s.sols.iter().collect();
    let mut solver = new_solver(b.sys.to_powdr(), handler.clone());
    let r = solver.solve();
    let asg = match r {
        Err(e) => {
            return Err(Failure::new(
                "solver-err",
                format!(
                    "solver reports {e:?} for a satisfiable system, solution {}\n{}",
                    show(&s.ix, sols[0]),
                    b.sys
                ),
            ))
        }
        Ok(a) => a,
    };
    if !asg.is_empty()
        || s.ix
            .vars
            .iter()
            .any(|v| !solver.get(v).is_unconstrained())
    {
        g.nontrivial();
    }
    if !asg.is_empty() {
        g.label("assignments");
    }
    check_assignments::<P>(&asg, &s, &sols)?;
    check_solver_state::<P, _>(&solver, &s, &sols, "after solve")?;
    // second call: no new information appears without a reason, and everything stays valid
    let again = solver
        .solve()
        .map_err(|e| Failure::new("solver-err", format!("second solve: {e:?}")))?;
    check_assignments::<P>(&again, &s, &sols)?;
    check_solver_state::<P, _>(&solver, &s, &sols, "after second solve")
}
fn c07_system(g: &mut Gen) -> CaseResult {
    with_prime!(g, c07_system_p, [11, 13, 17, 31, 61, 127])
}

/// Unsatisfiable or arbitrary systems (no hidden witness): an error is only allowed without solution.
fn c07_arbitrary_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let bw = pick_bw::<P>(g);
    let handler = TinyBuses::<Fp<P>>::new(bw, g.chance(2, 3));
    let mut b = gen_system::<Fp<P>>(g, bw, 4, 4);
    // disturb
    for _ in 0..g.range(1, 2) {
        let k = g.usize(b.sys.alg.len() + b.sys.bus.len() + 1);
        if k < b.sys.alg.len() {
            let c: Fp<P> = gen_const(g);
            b.sys.alg[k] = b.sys.alg[k].clone() + Ex::C(c);
        } else if k < b.sys.alg.len() + b.sys.bus.len() {
            let k = k - b.sys.alg.len();
            let c: Fp<P> = gen_const(g);
            let n = b.sys.bus[k].args.len();
            let i = g.usize(n);
            b.sys.bus[k].args[i] = b.sys.bus[k].args[i].clone() + Ex::C(c);
        } else {
            let e = b.affine(g, 3);
            b.sys.alg.push(e);
        }
    }
    let Some(s) = enumerate::<P>(&b.sys, &handler, LIMIT) else {
        return Ok(());
    };
    if s.sols.len() > 5000 {
        return Ok(());
    }
    g.note(|| format!("mod {P}, bw {bw}, {} solutions:\n{}", s.sols.len(), b.sys));
    let sols: Vec<&Vec<Fp<P>>> = s.sols.iter().collect();
    let mut solver = new_solver(b.sys.to_powdr(), handler.clone());
    match solver.solve() {
        Err(e) => {
            g.label("unsat found");
            g.nontrivial();
            ensure!(
                sols.is_empty(),
                "solver-err",
                "solver reports {e:?} but the system has a solution\n{}",
                b.sys
            );
        }
        Ok(asg) => {
            if sols.is_empty() {
                g.label("unsat not found");
            } else {
                g.nontrivial();
            }
            check_assignments::<P>(&asg, &s, &sols)?;
            check_solver_state::<P, _>(&solver, &s, &sols, "after solve")?;
        }
    }
    Ok(())
}
fn c07_arbitrary(g: &mut Gen) -> CaseResult {
    with_prime!(g, c07_arbitrary_p, [11, 13, 17, 31, 61])
}

/// Histories of operations on one solver, with all queries (shared by C07 and C08).
fn history_p<const P: u32>(g: &mut Gen, queries: bool) -> CaseResult {
    let mv = g.range(2, 5);
    let Some((b, handler, s)) = tiny_case::<P>(g, mv, 6) else {
        g.label("skipped: too many solutions");
        return Ok(());
    };
    // The final system is known from the start; it is added piece by piece. Range constraints
    // added on the way are part of the history. A statement of the solver at some point must hold
    // for all solutions of what was added so far; we check against the solutions of the prefix.
    let mut current: Sys<Fp<P>> = Sys::default();
    let mut extra: Vec<(Var, Rc<Fp<P>>)> = vec![];
    let mut pending: Vec<(bool, usize)> = (0..b.sys.alg.len())
        .map(|i| (true, i))
        .chain((0..b.sys.bus.len()).map(|i| (false, i)))
        .collect();
    g.shuffle(&mut pending);
    let mut solver = new_solver(ConstraintSystem::default(), handler.clone());
    let mut log: Vec<String> = vec![];
    let steps = g.range(3, 9);
    let allvars: Vec<Var> = s.ix.vars.clone();
    let mut dirty = false;
    let mut sols: Option<Solved<P>> = None;
    let mut answered = 0;
    for _ in 0..steps {
        match g.weighted(&[4, 4, 1, if dirty { 0 } else { 1 }, if queries { 6 } else { 1 }]) {
            0 => {
                let k = g.range(1, 3);
                for _ in 0..k {
                    if let Some((is_alg, i)) = pending.pop() {
                        dirty = true;
                        if is_alg {
                            current.alg.push(b.sys.alg[i].clone());
                            log.push(format!("add {} = 0", b.sys.alg[i]));
                            solver.add_algebraic_constraints([AlgebraicConstraint::assert_zero(
                                b.sys.alg[i].ge(),
                            )]);
                        } else {
                            let one = Sys {
                                alg: vec![],
                                bus: vec![b.sys.bus[i].clone()],
                            };
                            log.push(format!("add {one}"));
                            current.bus.push(b.sys.bus[i].clone());
                            solver.add_bus_interactions(one.to_powdr().bus_interactions);
                        }
                    }
                }
                sols = None;
            }
            1 => {
                log.push("solve".into());
                let st = history_solutions::<P>(&mut sols, &current, &extra, &handler, &allvars);
                let Some(st) = st else { return Ok(()) };
                let rs: Vec<&Vec<Fp<P>>> = st.sols.iter().collect();
                match solver.solve() {
                    Err(e) => {
                        ensure!(
                            rs.is_empty(),
                            "solver-err",
                            "{e:?} with solution {}\nhistory:\n{}",
                            show(&st.ix, rs[0]),
                            log.join("\n")
                        );
                        return Ok(());
                    }
                    Ok(asg) => {
                        check_assignments::<P>(&asg, st, &rs)
                            .map_err(|f| with_log(f, &log))?;
                        dirty = false;
                        if !asg.is_empty() {
                            g.nontrivial();
                        }
                    }
                }
                check_solver_state::<P, _>(&solver, st, &rs, "after solve")
                    .map_err(|f| with_log(f, &log))?;
            }
            2 => {
                if allvars.is_empty() {
                    continue;
                }
                let v = *g.pick(&allvars);
                // keep the hidden witness
                let x = b.w[&v];
                let rc = if g.bool() {
                    let lo = Fp(g.below(4) as u32);
                    let hi = Fp(g.below(4) as u32);
                    Rc::from_range(x - lo, x + hi)
                } else {
                    Rc::from_mask((x.0 | g.below(8) as u32) as u64)
                };
                log.push(format!("range {v} in {rc}"));
                solver.add_range_constraint(&v, rc);
                extra.push((v, rc));
                dirty = true;
                sols = None;
            }
            3 => {
                let keep: HashSet<Var> = allvars
                    .iter()
                    .copied()
                    .filter(|_| g.chance(2, 3))
                    .collect();
                log.push(format!("retain {:?}", keep.iter().sorted().collect_vec()));
                solver.retain_variables(&keep);
            }
            _ => {
                let st = history_solutions::<P>(&mut sols, &current, &extra, &handler, &allvars);
                let Some(st) = st else { return Ok(()) };
                let rs: Vec<&Vec<Fp<P>>> = st.sols.iter().collect();
                if rs.is_empty() {
                    return Ok(());
                }
                check_solver_state::<P, _>(&solver, st, &rs, "query")
                    .map_err(|f| with_log(f, &log))?;
                if !queries {
                    continue;
                }
                let (q1, q2) = query_exprs::<P>(g, &b, &allvars);
                let (g1, g2) = (q1.ge(), q2.ge());
                let ev = |e: &Ex<Fp<P>>, w: &Vec<Fp<P>>| {
                    e.eval(&|v: Var| w[st.ix.of[&v]])
                };
                let rc = solver.range_constraint_for_expression(&g1);
                let const1 = solver.try_to_equivalent_constant(&g1);
                let diff = solver.are_expressions_known_to_be_different(&g1, &g2);
                log.push(format!("query {q1} ; {q2}"));
                if !rc.is_unconstrained() || const1.is_some() || diff {
                    answered += 1;
                }
                if diff {
                    g.label("different");
                }
                if const1.is_some() {
                    g.label("constant");
                }
                for w in &rs {
                    let (x, y) = (ev(&q1, w), ev(&q2, w));
                    ensure!(
                        rc.allows_value(x),
                        "query-range",
                        "range {rc} for {q1} forbids {x} at {}\nhistory:\n{}",
                        show(&st.ix, w),
                        log.join("\n")
                    );
                    if let Some(c) = const1 {
                        ensure!(
                            c == x,
                            "query-constant",
                            "{q1} claimed constant {c} but is {x} at {}\nhistory:\n{}",
                            show(&st.ix, w),
                            log.join("\n")
                        );
                    }
                    ensure!(
                        !diff || x != y,
                        "query-different",
                        "{q1} and {q2} claimed different but both are {x} at {}\nhistory:\n{}",
                        show(&st.ix, w),
                        log.join("\n")
                    );
                }
            }
        }
    }
    if answered > 0 {
        g.nontrivial();
    }
    g.note(|| format!("mod {P}: {}", log.join("\n")));
    Ok(())
}

fn with_log(mut f: Failure, log: &[String]) -> Failure {
    f.detail.push_str("\nhistory:\n");
    f.detail.push_str(&log.join("\n"));
    f
}

fn history_solutions<'a, const P: u32>(
    cache: &'a mut Option<Solved<P>>,
    sys: &Sys<Fp<P>>,
    extra: &[(Var, Rc<Fp<P>>)],
    handler: &TinyBuses<Fp<P>>,
    allvars: &[Var],
) -> Option<&'a Solved<P>> {
    if cache.is_none() {
        let mut ix = Index::new();
        for v in allvars {
            ix.get(v);
        }
        let cs = CSys::of_sys(sys, &mut ix);
        let mut sols = cs.solutions(P as u64, handler, LIMIT)?;
        // Variables that do not occur yet are free: vary them a little (zero, one, random).
        let occurring = sys.vars();
        let free: Vec<usize> = allvars
            .iter()
            .enumerate()
            .filter(|(_, v)| !occurring.contains(v))
            .map(|(i, _)| i)
            .collect();
        if !free.is_empty() {
            let mut more = vec![];
            for (k, s) in sols.iter().enumerate().take(300) {
                for d in [1u32, 2, P / 2, P - 1] {
                    let mut t = s.clone();
                    for f in &free {
                        t[*f] = Fp((d + k as u32 * 3 + *f as u32 * 5) % P);
                    }
                    more.push(t);
                }
            }
            sols.extend(more);
        }
        sols.retain(|w| {
            extra
                .iter()
                .all(|(v, rc)| ix.of.get(v).is_none_or(|i| rc.allows_value(w[*i])))
        });
        if sols.len() > 4000 {
            return None;
        }
        *cache = Some(Solved { ix, sols });
    }
    cache.as_ref()
}

fn query_exprs<const P: u32>(
    g: &mut Gen,
    b: &Builder<Fp<P>>,
    vars: &[Var],
) -> (Ex<Fp<P>>, Ex<Fp<P>>) {
    let aff = |g: &mut Gen| -> Ex<Fp<P>> {
        if vars.is_empty() {
            return Ex::C(gen_const(g));
        }
        let mut e: Option<Ex<Fp<P>>> = None;
        for _ in 0..g.range(1, 3) {
            let v = Ex::V(*g.pick(vars));
            let c: Fp<P> = match g.usize(4) {
                0 | 1 => Fp(1),
                2 => Fp((1u32 << b.bw) % P),
                _ => nonzero(gen_const(g)),
            };
            let t = Ex::C(c) * v;
            e = Some(match e {
                None => t,
                Some(e) => e + t,
            });
        }
        let e = e.unwrap();
        if g.chance(1, 3) {
            e + Ex::C(gen_const(g))
        } else {
            e
        }
    };
    let sub = |g: &mut Gen| -> Ex<Fp<P>> {
        // sub-expression of the system
        let mut cands: Vec<&Ex<Fp<P>>> = vec![];
        fn collect<'a, T>(e: &'a Ex<T>, out: &mut Vec<&'a Ex<T>>) {
            out.push(e);
            match e {
                Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => {
                    collect(a, out);
                    collect(b, out);
                }
                Ex::Neg(a) => collect(a, out),
                _ => {}
            }
        }
        for e in &b.sys.alg {
            collect(e, &mut cands);
        }
        for x in &b.sys.bus {
            for e in &x.args {
                collect(e, &mut cands);
            }
        }
        if cands.is_empty() {
            aff(g)
        } else {
            (*g.pick(&cands)).clone()
        }
    };
    let one = |g: &mut Gen| match g.usize(3) {
        0 => aff(g),
        1 => sub(g),
        _ => {
            let x = sub(g);
            let y = aff(g);
            if g.bool() {
                x * y
            } else {
                x + y
            }
        }
    };
    let q1 = one(g);
    let q2 = match g.usize(4) {
        0 => one(g),
        1 => Ex::C(gen_const(g)),
        _ => q1.clone() + Ex::C(gen_const(g)) + Ex::C(gen_const(g)) * aff(g),
    };
    (q1, q2)
}

fn c07_history_p<const P: u32>(g: &mut Gen) -> CaseResult {
    history_p::<P>(g, false)
}
fn c07_history(g: &mut Gen) -> CaseResult {
    with_prime!(g, c07_history_p, [11, 13, 17, 31, 61])
}
fn c08_history_p<const P: u32>(g: &mut Gen) -> CaseResult {
    history_p::<P>(g, true)
}
fn c08_history(g: &mut Gen) -> CaseResult {
    with_prime!(g, c08_history_p, [11, 13, 17, 31, 61, 127])
}

/// Real fields: the hidden witness must never be excluded.
fn real_witness<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let bw = *g.pick(&[2u32, 3, 4]);
    let handler = TinyBuses::<T>::new(bw, g.bool());
    let mv = g.range(2, 8);
    let b = gen_system::<T>(g, bw, mv, 10);
    g.note(|| format!("{}", b.sys));
    let mut solver = new_solver(b.sys.to_powdr(), handler.clone());
    let asg = solver.solve().map_err(|e| {
        Failure::new(
            "solver-err",
            format!("solver reports {e:?} for a satisfiable system\n{}witness {:?}", b.sys, b.w),
        )
    })?;
    for (v, e) in &asg {
        let x = eval_ge(e, &|u: &Var| b.w[u]);
        ensure!(
            x == b.w[v],
            "solver-assignment",
            "{v} := {e} contradicts the witness {:?}\n{}",
            b.w,
            b.sys
        );
    }
    if !asg.is_empty() {
        g.nontrivial();
    }
    for (v, x) in &b.w {
        let rc = solver.get(v);
        ensure!(
            rc.allows_value(*x),
            "solver-range",
            "{rc} for {v} forbids {x}\n{}",
            b.sys
        );
        if !rc.is_unconstrained() {
            g.nontrivial();
        }
    }
    let e = b.sys.alg.first().cloned();
    if let Some(e) = e {
        let x = b.val(&e);
        ensure!(
            solver.range_constraint_for_expression(&e.ge()).allows_value(x),
            "query-range",
            "{e}"
        );
    }
    Ok(())
}
fn c07_real(g: &mut Gen) -> CaseResult {
    match g.usize(3) {
        0 => real_witness::<BabyBearField>(g),
        1 => real_witness::<GoldilocksField>(g),
        _ => real_witness::<KoalaBearField>(g),
    }
}

/// The exhaustive search helpers.
fn c08_search_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let mv = g.range(2, 5);
    let Some((b, handler, s)) = tiny_case::<P>(g, mv, 5) else {
        return Ok(());
    };
    let sols: Vec<&Vec<Fp<P>>> = s.sols.iter().collect();
    g.note(|| format!("mod {P}:\n{}", b.sys));
    // Valid range constraints: hulls of the solution sets, possibly widened, or none.
    let mut rcs: HashMap<Var, Rc<Fp<P>>> = HashMap::new();
    for (i, v) in s.ix.vars.iter().enumerate() {
        let vals: Vec<Fp<P>> = sols.iter().map(|w| w[i]).collect();
        if g.chance(2, 3) {
            let h = hull(&vals);
            let (lo, hi) = h.range();
            let rc = if g.bool() {
                h
            } else if h.range_width().0 + 3 < P {
                Rc::from_range(lo - Fp(1), hi + Fp(1))
            } else {
                continue;
            };
            rcs.insert(*v, rc);
        }
    }
    let sys: IndexedConstraintSystem<_, _> = b.sys.to_powdr().into();
    let cands: Vec<BTreeSet<Var>> = get_brute_force_candidates(&sys, &rcs).collect();
    for c in &cands {
        ensure!(
            c.iter().all(|v| rcs.get(v).cloned().unwrap_or_default().size_estimate().0 <= 5),
            "candidate",
            "{c:?}"
        );
        let r = exhaustive_search_on_variable_set(&sys, c, &rcs, &handler);
        match r {
            Err(e) => {
                return Err(Failure::new(
                    "search-err",
                    format!("{e:?} on {c:?} for satisfiable system {}", b.sys),
                ))
            }
            Ok(m) => {
                if !m.is_empty() {
                    g.nontrivial();
                }
                for (v, rc) in &m {
                    for w in &sols {
                        ensure!(
                            rc.allows_value(w[s.ix.of[v]]),
                            "search-range",
                            "exhaustive search over {c:?} yields {v} in {rc}, contradicting {}\n{}",
                            show(&s.ix, w),
                            b.sys
                        );
                    }
                }
            }
        }
    }
    Ok(())
}
fn c08_search(g: &mut Gen) -> CaseResult {
    with_prime!(g, c08_search_p, [11, 13, 31, 61])
}

// ------------------------------------------------------------------------------------- C09

/// Compares systems item by item: same number of items, same values at the given points.
fn same_values<const P: u32>(
    a: &ConstraintSystem<Fp<P>, Var>,
    b: &ConstraintSystem<Fp<P>, Var>,
    pts: &[BTreeMap<Var, Fp<P>>],
    what: &str,
) -> CaseResult {
    let flat = |s: &ConstraintSystem<Fp<P>, Var>| -> Vec<GroupedExpression<Fp<P>, Var>> {
        s.algebraic_constraints
            .iter()
            .map(|c| c.expression.clone())
            .chain(s.bus_interactions.iter().flat_map(|b| b.fields().cloned()))
            .chain(s.derived_variables.iter().flat_map(|d| {
                match &d.computation_method {
                    ComputationMethod::Constant(c) => vec![GroupedExpression::from_number(*c)],
                    ComputationMethod::QuotientOrZero(x, y) => vec![x.clone(), y.clone()],
                }
            }))
            .collect()
    };
    let (x, y) = (flat(a), flat(b));
    ensure_eq!(x.len(), y.len(), "indexed-items", "{what}");
    for (e, f) in x.iter().zip(&y) {
        for p in pts {
            let w = |v: &Var| p.get(v).copied().unwrap_or(Fp(0));
            ensure_eq!(
                eval_ge(e, &w),
                eval_ge(f, &w),
                "indexed-value",
                "{what}: {e} vs reference {f}"
            );
        }
    }
    Ok(())
}

/// Histories of operations on an indexed constraint system against a plain list.
fn c09_indexed_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let bw = pick_bw::<P>(g);
    let b = gen_system::<Fp<P>>(g, bw, 6, 6);
    let mut vars: Vec<Var> = b.sys.vars().into_iter().collect();
    if vars.is_empty() {
        return Ok(());
    }
    let mut plain = b.sys.to_powdr();
    // derived variables
    for k in 0..g.usize(3) {
        let e1: Ex<Fp<P>> = small_affine(g, &vars);
        let e2: Ex<Fp<P>> = small_affine(g, &vars);
        plain.derived_variables.push(DerivedVariable::new(
            Var(60 + k as u32),
            if g.chance(1, 4) {
                ComputationMethod::Constant(gen_const(g))
            } else {
                ComputationMethod::QuotientOrZero(e1.ge(), e2.ge())
            },
        ));
    }
    let mut indexed: IndexedConstraintSystem<Fp<P>, Var> = plain.clone().into();
    let pts: Vec<BTreeMap<Var, Fp<P>>> = (0..3)
        .map(|_| {
            (0..70)
                .map(|i| (Var(i), Fp((g.below(P as u64)) as u32)))
                .collect()
        })
        .collect();
    let mut log = vec![];
    for _ in 0..g.range(2, 7) {
        let v = *g.pick(&vars);
        match g.usize(8) {
            0 => {
                let c: Fp<P> = gen_const(g);
                log.push(format!("{v} := {c}"));
                indexed.substitute_by_known(&v, &c);
                map_system(&mut plain, &mut |e| e.substitute_by_known(&v, &c));
                g.nontrivial();
            }
            1 | 2 => {
                let others: Vec<Var> = vars.iter().copied().filter(|x| *x != v).collect();
                if others.is_empty() {
                    continue;
                }
                let e = if g.chance(1, 5) {
                    small_affine(g, &others) * small_affine(g, &others)
                } else {
                    small_affine(g, &others)
                };
                let e = e.ge();
                log.push(format!("{v} := {e}"));
                indexed.substitute_by_unknown(&v, &e);
                map_system(&mut plain, &mut |x| x.substitute_by_unknown(&v, &e));
                g.nontrivial();
            }
            3 => {
                let keep: Vec<bool> = (0..plain.algebraic_constraints.len())
                    .map(|_| g.chance(3, 4))
                    .collect();
                log.push(format!("retain alg {keep:?}"));
                let mut i = 0;
                indexed.retain_algebraic_constraints(|_| {
                    i += 1;
                    keep[i - 1]
                });
                let mut i = 0;
                plain.algebraic_constraints.retain(|_| {
                    i += 1;
                    keep[i - 1]
                });
            }
            4 => {
                let keep: Vec<bool> = (0..plain.bus_interactions.len())
                    .map(|_| g.chance(3, 4))
                    .collect();
                log.push(format!("retain bus {keep:?}"));
                let mut i = 0;
                indexed.retain_bus_interactions(|_| {
                    i += 1;
                    keep[i - 1]
                });
                let mut i = 0;
                plain.bus_interactions.retain(|_| {
                    i += 1;
                    keep[i - 1]
                });
            }
            5 => {
                let keep: Vec<bool> = (0..plain.derived_variables.len())
                    .map(|_| g.chance(3, 4))
                    .collect();
                log.push(format!("retain derived {keep:?}"));
                let mut i = 0;
                indexed.retain_derived_variables(|_| {
                    i += 1;
                    keep[i - 1]
                });
                let mut i = 0;
                plain.derived_variables.retain(|_| {
                    i += 1;
                    keep[i - 1]
                });
            }
            6 => {
                let more = gen_system::<Fp<P>>(g, bw, 4, 2);
                let m = more.sys.to_powdr();
                log.push(format!("extend by\n{}", more.sys));
                for v in more.sys.vars() {
                    if !vars.contains(&v) {
                        vars.push(v);
                    }
                }
                match g.usize(3) {
                    0 => {
                        indexed.extend(m.clone());
                        plain.extend(m);
                    }
                    1 => {
                        indexed.add_algebraic_constraints(m.algebraic_constraints.clone());
                        plain.algebraic_constraints.extend(m.algebraic_constraints);
                    }
                    _ => {
                        indexed.add_bus_interactions(m.bus_interactions.clone());
                        plain.bus_interactions.extend(m.bus_interactions);
                    }
                }
            }
            _ => {
                // batch of substitutions
                let mut subs = vec![];
                for _ in 0..g.range(1, 3) {
                    let v = *g.pick(&vars);
                    let others: Vec<Var> = vars.iter().copied().filter(|x| *x != v).collect();
                    if others.is_empty() {
                        continue;
                    }
                    subs.push((v, small_affine(g, &others).ge()));
                }
                log.push(format!(
                    "batch {}",
                    subs.iter().map(|(v, e)| format!("{v}:={e}")).format(", ")
                ));
                if g.bool() {
                    indexed.apply_substitutions(subs.clone());
                } else {
                    let s: ConstraintSystem<_, _> = indexed.clone().into();
                    let s = apply_substitutions(s, subs.clone());
                    indexed = s.into();
                }
                for (v, e) in &subs {
                    map_system(&mut plain, &mut |x| x.substitute_by_unknown(v, e));
                }
                g.nontrivial();
            }
        }
        same_values::<P>(indexed.system(), &plain, &pts, &log.join("\n"))?;
        // index queries: every constraint that has the variable is found; none without it unless
        // the variable was there before
        let q = *g.pick(&vars);
        let found: Vec<String> = indexed
            .constraints_referencing_variables([&q])
            .map(show_ref)
            .collect();
        let expect: Vec<String> = plain_refs(&plain, &q);
        for e in &expect {
            ensure!(
                found.contains(e),
                "index-miss",
                "constraint with {q} not found via index: {e}\nhistory {}",
                log.join("\n")
            );
        }
        let refd: BTreeSet<Var> = indexed.referenced_unknown_variables().copied().collect();
        let pr: BTreeSet<Var> = plain.referenced_unknown_variables().copied().collect();
        ensure_eq!(refd, pr, "index-vars", "{}", log.join("\n"));
        let known: BTreeSet<Var> = indexed.variables().copied().collect();
        ensure!(
            pr.is_subset(&known),
            "index-vars",
            "variables() misses one: {}",
            log.join("\n")
        );
    }
    // expression lists
    let exprs: Vec<GroupedExpression<Fp<P>, Var>> =
        plain.algebraic_constraints.iter().map(|c| c.expression.clone()).collect();
    let v = vars[0];
    let others: Vec<Var> = vars.iter().copied().filter(|x| *x != v).collect();
    if !others.is_empty() {
        let e = small_affine(g, &others).ge();
        let out = apply_substitutions_to_expressions(exprs.clone(), [(v, e.clone())]);
        ensure_eq!(out.len(), exprs.len(), "subst-list", "");
        for (a, b) in out.iter().zip(&exprs) {
            for p in &pts {
                let mut q = p.clone();
                q.insert(v, eval_ge(&e, &|u: &Var| p[u]));
                ensure_eq!(
                    eval_ge(a, &|u: &Var| p[u]),
                    eval_ge(b, &|u: &Var| q[u]),
                    "subst-list",
                    "{b} with {v} := {e}"
                );
            }
        }
    }
    g.note(|| format!("{}\n{}", b.sys, log.join("\n")));
    Ok(())
}
fn c09_indexed(g: &mut Gen) -> CaseResult {
    with_prime!(g, c09_indexed_p, [7, 13, 31])
}

fn show_ref<const P: u32>(c: ConstraintRef<'_, Fp<P>, Var>) -> String {
    match c {
        ConstraintRef::AlgebraicConstraint(c) => format!("{}", c.expression),
        ConstraintRef::BusInteraction(b) => format!("{b}"),
    }
}
fn plain_refs<const P: u32>(s: &ConstraintSystem<Fp<P>, Var>, v: &Var) -> Vec<String> {
    s.algebraic_constraints
        .iter()
        .filter(|c| c.referenced_unknown_variables().contains(v))
        .map(|c| format!("{}", c.expression))
        .chain(
            s.bus_interactions
                .iter()
                .filter(|c| c.referenced_unknown_variables().contains(v))
                .map(|c| format!("{c}")),
        )
        .collect()
}

fn map_system<const P: u32>(
    s: &mut ConstraintSystem<Fp<P>, Var>,
    f: &mut impl FnMut(&mut GroupedExpression<Fp<P>, Var>),
) {
    for c in &mut s.algebraic_constraints {
        f(&mut c.expression);
    }
    for b in &mut s.bus_interactions {
        for e in b.fields_mut() {
            f(e);
        }
    }
    for d in &mut s.derived_variables {
        if let ComputationMethod::QuotientOrZero(a, b) = &mut d.computation_method {
            f(a);
            f(b);
        }
    }
}

fn small_affine<T: FieldElement>(g: &mut Gen, vars: &[Var]) -> Ex<T> {
    let mut e = Ex::C(gen_const(g));
    for _ in 0..g.usize(3) {
        let v = *g.pick(vars);
        e = e + Ex::C(nonzero(gen_const(g))) * Ex::V(v);
    }
    e
}

fn c09_inline_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let mv = g.range(3, 6);
    let Some((b, handler, s)) = tiny_case::<P>(g, mv, 7) else {
        g.label("skipped: too many solutions");
        return Ok(());
    };
    let ps = b.sys.to_powdr();
    let maxdeg = |s: &ConstraintSystem<Fp<P>, Var>| {
        (
            s.algebraic_constraints
                .iter()
                .map(|c| c.degree())
                .max()
                .unwrap_or(0),
            s.bus_interactions
                .iter()
                .flat_map(|b| b.fields())
                .map(|e| e.degree())
                .max()
                .unwrap_or(0),
        )
    };
    let (d0a, d0b) = maxdeg(&ps);
    let bound = DegreeBound {
        identities: g.range(1, 5),
        bus_interactions: g.range(1, 3),
    };
    // variables the predicate refuses
    let refused: BTreeSet<Var> = s
        .ix
        .vars
        .iter()
        .copied()
        .filter(|_| g.chance(1, 5))
        .collect();
    let base = inline_everything_below_degree_bound::<Fp<P>, Var>(bound);
    let (out, subs) = replace_constrained_witness_columns(
        IndexedConstraintSystem::from(ps),
        |v, e, s| !refused.contains(v) && base(v, e, s),
    );
    let out: ConstraintSystem<Fp<P>, Var> = out.into();
    g.note(|| {
        format!(
            "mod {P} bound {bound:?} refused {refused:?}\n{}\n->\n{out}\nsubstitutions {}",
            b.sys,
            subs.iter().map(|(v, e)| format!("{v}:={e}")).format(", ")
        )
    });
    if !subs.is_empty() {
        g.nontrivial();
    }
    let (da, db) = maxdeg(&out);
    ensure!(
        da <= bound.identities.max(d0a) && db <= bound.bus_interactions.max(d0b),
        "inline-degree",
        "degrees {da}/{db} exceed bound {bound:?} (before {d0a}/{d0b})\n{}\n->\n{out}",
        b.sys
    );
    for v in subs.keys() {
        ensure!(!refused.contains(v), "inline-refused", "{v} was inlined");
        ensure!(
            !out.referenced_unknown_variables().contains(v),
            "inline-left",
            "{v} still in system"
        );
    }
    let mut ix = s.ix.clone();
    let n = ix.vars.len();
    let cs = CSys::of_powdr(&out, &mut ix);
    ensure_eq!(ix.vars.len(), n, "inline-vars", "new variables appeared");
    // every solution survives and satisfies the substitutions
    for w in &s.sols {
        if let Some(x) = cs.violated(w, &handler) {
            return Err(Failure::new(
                "inline-lost",
                format!("solution {} violates {x} of inlined system\n{}\n->\n{out}", show(&ix, w), b.sys),
            ));
        }
        for (v, e) in &subs {
            let x = eval_ge(e, &|u: &Var| w[ix.of[u]]);
            ensure!(
                x == w[ix.of[v]],
                "inline-subst",
                "substitution {v} := {e} wrong at {}",
                show(&ix, w)
            );
        }
    }
    // every solution of the new system extends to the old one through the substitutions
    let mut cs2 = cs.clone();
    for (v, e) in &subs {
        let mut ce = CE::of(e, &mut |u: &Var| ix.of[u]);
        ce.l.push((ix.of[v], -Fp(1)));
        cs2.alg.push(ce);
    }
    let mut ix0 = s.ix.clone();
    let orig = CSys::of_sys(&b.sys, &mut ix0);
    // variables that vanished without substitution would be unconstrained: they must not matter
    let occ: BTreeSet<Var> = out
        .referenced_unknown_variables()
        .copied()
        .chain(subs.keys().copied())
        .chain(subs.values().flat_map(|e| e.referenced_unknown_variables().copied()))
        .collect();
    let Some(sols2) = cs2.solutions(P as u64, &handler, LIMIT * 4) else {
        return Ok(());
    };
    for w in &sols2 {
        // vanished variables take the solver's default (zero); they can take any value
        if let Some(x) = orig.violated(w, &handler) {
            return Err(Failure::new(
                "inline-unsound",
                format!(
                    "{} satisfies inlined system and substitutions but violates {x} of the original\n{}\n->\n{out}\n{}",
                    show(&ix, w),
                    b.sys,
                    subs.iter().map(|(v, e)| format!("{v}:={e}")).format(", ")
                ),
            ));
        }
    }
    let _ = occ;
    Ok(())
}
fn c09_inline(g: &mut Gen) -> CaseResult {
    with_prime!(g, c09_inline_p, [11, 13, 17, 31])
}

/// Splitting into independent parts and reachability.
fn c09_split_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let bw = pick_bw::<P>(g);
    let k = g.range(1, 3);
    let mut sys: Sys<Fp<P>> = Sys::default();
    for i in 0..k {
        let mut b = gen_system::<Fp<P>>(g, bw, 4, 3);
        // rename apart (sometimes not)
        if g.chance(3, 4) {
            let off = 100 * i as u32;
            b.sys.alg = b.sys.alg.iter().map(|e| rename(e, off)).collect();
            for x in &mut b.sys.bus {
                x.mult = rename(&x.mult, off);
                x.args = x.args.iter().map(|e| rename(e, off)).collect();
            }
        }
        sys.alg.extend(b.sys.alg);
        sys.bus.extend(b.sys.bus);
    }
    let ps = sys.to_powdr();
    let mut plain = ps.clone();
    plain.algebraic_constraints.retain(|c| !c.is_redundant());
    let items = |s: &ConstraintSystem<Fp<P>, Var>| -> Vec<(BTreeSet<Var>, String)> {
        s.algebraic_constraints
            .iter()
            .map(|c| {
                (
                    c.referenced_unknown_variables().copied().collect(),
                    format!("{c}"),
                )
            })
            .chain(s.bus_interactions.iter().map(|c| {
                (
                    c.referenced_unknown_variables().copied().collect(),
                    format!("{c}"),
                )
            }))
            .collect()
    };
    let indexed = IndexedConstraintSystem::from(ps.clone());
    let all = items(&plain);
    let parts = split_system(indexed.clone());
    g.note(|| format!("{} parts of\n{sys}", parts.len()));
    if parts.len() > 1 {
        g.nontrivial();
    }
    // reference: union-find over variables
    let comp = |start: Var| -> BTreeSet<Var> {
        let mut seen = BTreeSet::from([start]);
        loop {
            let n = seen.len();
            for (vs, _) in &all {
                if vs.iter().any(|v| seen.contains(v)) {
                    seen.extend(vs.iter().copied());
                }
            }
            if seen.len() == n {
                return seen;
            }
        }
    };
    let mut got: Vec<String> = vec![];
    let mut seen_vars: BTreeSet<Var> = BTreeSet::new();
    for p in &parts {
        let it = items(p);
        let vs: BTreeSet<Var> = it.iter().flat_map(|(v, _)| v.iter().copied()).collect();
        ensure!(
            seen_vars.is_disjoint(&vs),
            "split-overlap",
            "variable in two parts of\n{sys}"
        );
        seen_vars.extend(vs.iter().copied());
        if let Some(v) = vs.iter().next() {
            ensure_eq!(vs, comp(*v), "split-component", "{sys}");
        }
        got.extend(it.into_iter().map(|x| x.1));
    }
    let mut expect: Vec<String> = all
        .iter()
        .filter(|(vs, _)| !vs.is_empty())
        .map(|x| x.1.clone())
        .collect();
    got.sort();
    expect.sort();
    ensure_eq!(got, expect, "split-items", "items lost or duplicated by splitting\n{sys}");
    // reachability
    let vars: Vec<Var> = sys.vars().into_iter().collect();
    if vars.is_empty() {
        return Ok(());
    }
    let all_items = items(&ps);
    let start = *g.pick(&vars);
    let r: BTreeSet<Var> = reachable_variables([start], &indexed).into_iter().collect();
    let blocked: BTreeSet<Var> = vars.iter().copied().filter(|_| g.chance(1, 4)).collect();
    let reach = |blocked: &BTreeSet<Var>| -> BTreeSet<Var> {
        let mut seen = BTreeSet::from([start]);
        loop {
            let n = seen.len();
            for (vs, _) in &all_items {
                if vs.iter().any(|v| seen.contains(v) && !blocked.contains(v)) {
                    seen.extend(vs.iter().copied());
                }
            }
            if seen.len() == n {
                return seen;
            }
        }
    };
    ensure_eq!(r, reach(&BTreeSet::new()), "reachable", "from {start} in\n{sys}");
    let rb: BTreeSet<Var> =
        reachable_variables_except_blocked([start], blocked.iter().copied(), &indexed)
            .into_iter()
            .collect();
    ensure_eq!(rb, reach(&blocked), "reachable-blocked", "from {start} blocked {blocked:?} in\n{sys}");
    Ok(())
}
fn rename<T: FieldElement>(e: &Ex<T>, off: u32) -> Ex<T> {
    match e {
        Ex::C(c) => Ex::C(*c),
        Ex::V(v) => Ex::V(Var(v.0 + off)),
        Ex::Add(a, b) => rename(a, off) + rename(b, off),
        Ex::Sub(a, b) => rename(a, off) - rename(b, off),
        Ex::Mul(a, b) => rename(a, off) * rename(b, off),
        Ex::Neg(a) => -rename(a, off),
    }
}
fn c09_split(g: &mut Gen) -> CaseResult {
    with_prime!(g, c09_split_p, [13, 31])
}

// ------------------------------------------------------------------------------------- C10

fn c10_rules_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let mv = g.range(2, 8);
    let Some((b, handler, s)) = tiny_case::<P>(g, mv, 6) else {
        g.label("skipped: too many solutions");
        return Ok(());
    };
    c10_check::<P>(g, &b.sys, &handler, &s)
}

fn c10_check<const P: u32>(
    g: &mut Gen,
    sys: &Sys<Fp<P>>,
    handler: &TinyBuses<Fp<P>>,
    s: &Solved<P>,
) -> CaseResult {
    c10_check_hiding(g, sys, handler, s, &[])
}
/// `hidden`: helper variables of a recognised gadget that occur nowhere else and may be dropped.
fn c10_check_hiding<const P: u32>(
    g: &mut Gen,
    sys: &Sys<Fp<P>>,
    handler: &TinyBuses<Fp<P>>,
    s: &Solved<P>,
    hidden: &[Var],
) -> CaseResult {
    let ps = sys.to_powdr();
    let bound = match g.usize(3) {
        0 => None,
        1 => Some(DegreeBound {
            identities: 3,
            bus_interactions: 2,
        }),
        _ => Some(DegreeBound {
            identities: g.range(1, 6),
            bus_interactions: g.range(1, 3),
        }),
    };
    let mut next = 1000u32;
    let mut new_var = |_: &str| {
        next += 1;
        Var(next)
    };
    let solve_first = g.bool();
    // The driver hands in the solver's knowledge: substituted system is not needed, the range
    // constraints are valid for the unmodified system as well.
    // Ranges that are handed in are assumptions of the rewrite: soundness is relative to them.
    let mut given: Vec<(usize, RangeConstraint<Fp<P>>)> = vec![];
    let (out, asg) = if solve_first {
        let mut solver = new_solver(ps.clone(), handler.clone());
        solver
            .solve()
            .map_err(|e| Failure::new("solver-err", format!("{e:?}")))?;
        given = s.ix.vars.iter().enumerate().map(|(i, v)| (i, solver.get(v))).collect();
        rule_based_optimization(
            IndexedConstraintSystem::from(ps.clone()),
            &solver,
            handler.clone(),
            &mut new_var,
            bound,
        )
    } else {
        rule_based_optimization(
            IndexedConstraintSystem::from(ps.clone()),
            NoRangeConstraints,
            handler.clone(),
            &mut new_var,
            bound,
        )
    };
    let out: ConstraintSystem<Fp<P>, Var> = out.into();
    g.note(|| {
        format!(
            "mod {P} bw {} bound {bound:?} solver ranges {solve_first}\n{sys}\n->\n{out}\nassignments {}",
            handler.bw,
            asg.iter().map(|(v, e)| format!("{v}:={e}")).format(", ")
        )
    });
    let changed = !asg.is_empty() || format!("{out}") != format!("{ps}");
    if changed {
        g.nontrivial();
    }
    if !out.derived_variables.is_empty() {
        g.label("derived");
    }
    let ctx = || format!("{sys}\n->\n{out}\nassignments {}", asg.iter().map(|(v, e)| format!("{v}:={e}")).format(", "));
    let deg = |s: &ConstraintSystem<Fp<P>, Var>| {
        s.algebraic_constraints.iter().map(|c| c.degree()).max().unwrap_or(0)
    };
    let d0 = deg(&ps);
    let d1 = deg(&out);
    match bound {
        None => ensure!(d1 <= d0, "rule-degree", "degree grew from {d0} to {d1}\n{}", ctx()),
        Some(bd) => ensure!(
            d1 <= d0.max(bd.identities),
            "rule-degree",
            "degree {d1} above bound {bd:?} (was {d0})\n{}",
            ctx()
        ),
    }
    let bdeg = |s: &ConstraintSystem<Fp<P>, Var>| {
        s.bus_interactions
            .iter()
            .flat_map(|b| b.fields())
            .map(|e| e.degree())
            .max()
            .unwrap_or(0)
    };
    ensure!(bdeg(&out) <= bdeg(&ps), "rule-degree", "bus degree grew\n{}", ctx());
    // index over old variables, then new ones
    let mut ix = s.ix.clone();
    let n_old = ix.vars.len();
    let cs = CSys::of_powdr(&out, &mut ix);
    for d in &out.derived_variables {
        ix.get(&d.variable);
    }
    for v in &ix.vars[n_old..] {
        ensure!(
            out.derived_variables.iter().any(|d| d.variable == *v),
            "rule-newvar",
            "new variable {v} has no computation method\n{}",
            ctx()
        );
    }
    // completeness: every solution, extended by the computation methods, is a solution
    for w in &s.sols {
        let mut full = w.clone();
        full.resize(ix.vars.len(), Fp(0));
        for d in &out.derived_variables {
            let x = eval_method(&d.computation_method, &|u: &Var| {
                ix.of.get(u).map(|i| full[*i]).unwrap_or(Fp(0))
            });
            full[ix.of[&d.variable]] = x;
        }
        if let Some(x) = cs.violated(&full, handler) {
            return Err(Failure::new(
                "rule-lost",
                format!("solution {} (extended: {}) violates {x} of the result\n{}", show(&s.ix, w), show(&ix, &full), ctx()),
            ));
        }
        for (v, e) in &asg {
            let x = eval_ge(e, &|u: &Var| full[ix.of[u]]);
            ensure!(
                x == full[ix.of[v]],
                "rule-assignment",
                "assignment {v} := {e} wrong at {}\n{}",
                show(&ix, &full),
                ctx()
            );
        }
    }
    // soundness: every solution of result + assignments agrees with an original solution on the
    // variables that still occur
    let mut cs2 = cs.clone();
    cs2.n = ix.vars.len();
    for (v, e) in &asg {
        let mut ce = CE::of(e, &mut |u: &Var| ix.of[u]);
        ce.l.push((ix.of[v], -Fp(1)));
        cs2.alg.push(ce);
    }
    let Some(sols2) = cs2.solutions(P as u64, handler, LIMIT * 4) else {
        g.label("soundness skipped");
        return Ok(());
    };
    let keep: Vec<usize> = {
        let mut vs: BTreeSet<usize> = BTreeSet::new();
        for e in &cs2.alg {
            e.vars(&mut vs);
        }
        for b in &cs2.bus {
            b.id.vars(&mut vs);
            b.mult.vars(&mut vs);
            for a in &b.args {
                a.vars(&mut vs);
            }
        }
        vs.into_iter()
            .filter(|i| *i < n_old && !hidden.contains(&ix.vars[*i]))
            .collect()
    };
    let proj: HashSet<Vec<Fp<P>>> = s
        .sols
        .iter()
        .map(|w| keep.iter().map(|i| w[*i]).collect())
        .collect();
    for w in &sols2 {
        let p: Vec<Fp<P>> = keep.iter().map(|i| w[*i]).collect();
        if given
            .iter()
            .any(|(i, rc)| keep.contains(i) && !rc.allows_value(w[*i]))
        {
            continue;
        }
        ensure!(
            proj.contains(&p),
            "rule-unsound",
            "result has solution {} that no solution of the original matches\n{}",
            show(&ix, w),
            ctx()
        );
    }
    Ok(())
}
fn c10_rules(g: &mut Gen) -> CaseResult {
    with_prime!(g, c10_rules_p, [11, 13, 17, 31, 61])
}

/// Systems built from the rule patterns (with variations that must not match).
fn c10_patterns_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let bw = pick_bw::<P>(g);
    let handler = TinyBuses::<Fp<P>>::new(bw, g.chance(2, 3));
    let mut b = Builder::<Fp<P>>::new(bw, 6);
    let small_coeff = |g: &mut Gen| -> Fp<P> {
        match g.usize(4) {
            0 | 1 => Fp(1),
            2 => -Fp(1),
            _ => nonzero(gen_const(g)),
        }
    };
    match g.usize(6) {
        0 => {
            // free variable combination with non-negative or signed factors
            let n = g.range(2, 3);
            let mut e: Ex<Fp<P>> = Ex::c(0);
            for _ in 0..n {
                let x = if g.bool() {
                    let a = b.small(g);
                    let c = b.small(g);
                    Ex::V(a) - Ex::V(c)
                } else {
                    let a = b.small(g);
                    if g.chance(1, 4) {
                        Ex::V(a) + Ex::c(1)
                    } else {
                        Ex::V(a)
                    }
                };
                let fv = gen_const(g);
                let f = b.new_var(g, fv, Kind::Free);
                let c = small_coeff(g);
                e = e + Ex::C(c) * (x * Ex::V(f));
            }
            match g.usize(3) {
                0 => {}
                1 => {
                    let r = b.bit(g);
                    e = e + Ex::V(r);
                }
                _ => {
                    let r = b.affine(g, 1);
                    e = e - r;
                }
            }
            let e = b.zeroed(e);
            b.assert_zero(e);
        }
        1 => {
            // quadratic equivalence
            let k = 1u64 << bw;
            let base = b.affine(g, 1);
            let bv = b.val(&base);
            let x = bv.0 as u64 % k;
            let off = Fp::<P>(k as u32);
            let c = small_coeff(g);
            for _ in 0..2 {
                // v1 = base or base - off (whichever fits)
                let val = if g.bool() { bv } else { bv - off };
                let val = if (val.0 as u64) < k { val } else { Fp(x as u32) };
                let v = b.new_var(g, val, Kind::Small);
                if g.chance(3, 4) {
                    b.range_check(g, Ex::V(v));
                }
                let d = base.clone() - Ex::V(v);
                let o = if g.chance(4, 5) { off } else { gen_const(g) };
                let f = if g.bool() { c } else { small_coeff(g) };
                let e = (Ex::C(f) * d.clone()) * (d.clone() - Ex::C(o));
                let e = if b.val(&e) == Fp(0) { e } else { b.zeroed(d) };
                b.assert_zero(e);
            }
        }
        2 => {
            // one-hot with weighted sum(s)
            let n = g.range(2, 5);
            let hot = g.usize(n);
            let mut bits = vec![];
            for i in 0..n {
                let v = b.new_var(g, Fp((i == hot) as u32), Kind::Bit);
                if g.chance(9, 10) {
                    b.constrain_bit(g, v);
                }
                bits.push(v);
            }
            let f = small_coeff(g);
            let mut e = Ex::c(0);
            for v in &bits {
                e = e + Ex::C(if g.chance(9, 10) { f } else { small_coeff(g) }) * Ex::V(*v);
            }
            let e = b.zeroed(e);
            b.assert_zero(e);
            for _ in 0..g.range(1, 2) {
                let mut e = Ex::c(0);
                for v in &bits {
                    if g.chance(2, 3) {
                        let c: Fp<P> = gen_const(g);
                        e = e + Ex::C(c) * Ex::V(*v);
                    }
                }
                let e = b.zeroed(e);
                b.assert_zero(e);
            }
        }
        3 => {
            // sums of bounded things equal to zero or small constants
            let n = g.range(2, 4);
            let mut e: Ex<Fp<P>> = Ex::c(0);
            for _ in 0..n {
                let v = if g.bool() {
                    b.bit(g)
                } else if g.chance(2, 3) {
                    b.small_with(g, 0)
                } else {
                    b.small(g)
                };
                let k = small_coeff(g);
                e = e + if g.chance(1, 4) {
                    Ex::C(k) * (Ex::V(v) * Ex::V(v))
                } else {
                    Ex::C(k) * Ex::V(v)
                };
            }
            let e = b.zeroed(e);
            b.assert_zero(e);
        }
        4 => {
            // x*a = 0, x*b = 0, ...
            let x = if g.bool() {
                let v = b.bit(g);
                if b.w[&v] == Fp(0) {
                    Ex::V(v)
                } else {
                    Ex::c(1) - Ex::V(v)
                }
            } else {
                let a = b.affine(g, 2);
                b.zeroed(a)
            };
            for _ in 0..g.range(2, 4) {
                let a = match g.usize(4) {
                    0 => Ex::V(b.bit(g)),
                    1 => Ex::V(b.small(g)),
                    2 => {
                        let u = b.small(g);
                        let v = b.small(g);
                        Ex::V(u) - Ex::V(v)
                    }
                    _ => {
                        let u = b.small(g);
                        Ex::V(u) * Ex::C(small_coeff(g))
                    }
                };
                let e = if g.bool() { x.clone() * a } else { a * x.clone() };
                b.assert_zero(e);
            }
        }
        _ => {
            // variables with two possible values
            let x = b.any_var(g);
            let c1 = b.w[&x];
            let c2: Fp<P> = gen_const(g);
            let k1 = small_coeff(g);
            let k2 = small_coeff(g);
            b.assert_zero(
                (Ex::C(k1) * (Ex::V(x) - Ex::C(c2))) * (Ex::C(k2) * (Ex::V(x) - Ex::C(c1))),
            );
            let e = b.affine(g, 2);
            let e = b.zeroed(e);
            b.assert_zero(e);
        }
    }
    for _ in 0..g.usize(3) {
        b.add_constraint(g);
    }
    let Some(s) = enumerate::<P>(&b.sys, &handler, LIMIT) else {
        return Ok(());
    };
    if s.sols.len() > 5000 {
        return Ok(());
    }
    c10_check::<P>(g, &b.sys, &handler, &s)
}
/// The "is this four-limb value zero" comparison that the rules compress, with mutations.
fn c10_zero_check_p<const P: u32>(g: &mut Gen) -> CaseResult {
    let bw = if g.chance(3, 4) { 1 } else { 2 };
    let handler = TinyBuses::<Fp<P>>::new(bw, g.chance(2, 3));
    let mut b = Builder::<Fp<P>>::new(bw, 6);
    let top = 1u64 << bw;
    let a: Vec<Var> = (0..4)
        .map(|_| {
            let x = if g.chance(2, 3) { 0 } else { g.below(top) };
            let v = b.new_var(g, Fp(x as u32), Kind::Small);
            b.range_check(g, Ex::V(v));
            v
        })
        .collect();
    let av: Vec<u32> = a.iter().map(|v| b.w[v].0).collect();
    let zero = av.iter().all(|x| *x == 0);
    let hot = if let Some(i) = (1..4).rev().find(|i| av[*i] != 0) {
        Some(i)
    } else if av[0] != 1 {
        Some(0)
    } else {
        None
    };
    let r = b.new_var(g, Fp(zero as u32), Kind::Bit);
    b.constrain_bit(g, r);
    let m: Vec<Var> = (0..4)
        .map(|i| {
            let v = b.new_var(g, Fp((hot == Some(i)) as u32), Kind::Bit);
            b.constrain_bit(g, v);
            v
        })
        .collect();
    let one = || Ex::<Fp<P>>::c(1);
    let pm = || Ex::<Fp<P>>::c(2) * Ex::V(r) - Ex::c(1);
    let neg = |v: Var| Ex::C(-Fp::<P>(1)) * Ex::V(v);
    let dvv = match hot {
        Some(0) if zero => Fp(1),
        Some(0) => Fp(av[0] - 1),
        Some(i) => Fp(av[i]),
        None => gen_const(g),
    };
    let dv = b.new_var(g, dvv, Kind::Free);
    let mutate = g.usize(16); // 0..10: drop this constraint, otherwise keep all
    let sum = || Ex::V(m[0]) + Ex::V(m[1]) + Ex::V(m[2]) + Ex::V(m[3]);
    let cs: Vec<Ex<Fp<P>>> = vec![
        (one() - Ex::V(m[3])) * (neg(a[3]) * pm()),
        (one() - Ex::V(m[2]) - Ex::V(m[3])) * (neg(a[2]) * pm()),
        (one() - Ex::V(m[1]) - Ex::V(m[2]) - Ex::V(m[3])) * (neg(a[1]) * pm()),
        (one() - sum()) * Ex::V(r),
        (one() - sum()) * ((one() - Ex::V(a[0])) * pm()),
        Ex::V(m[0]) * ((Ex::V(a[0]) - one()) * pm() + Ex::V(dv)),
        Ex::V(m[1]) * (Ex::V(a[1]) * pm() + Ex::V(dv)),
        Ex::V(m[2]) * (Ex::V(a[2]) * pm() + Ex::V(dv)),
        Ex::V(m[3]) * (Ex::V(a[3]) * pm() + Ex::V(dv)),
        sum() * (sum() - one()),
    ];
    for (i, e) in cs.into_iter().enumerate() {
        if i != mutate {
            b.assert_zero(e);
        }
    }
    // The range check of the difference, part of every such comparison (the rule relies on it
    // without checking, see known-findings.txt).
    b.sys.bus.push(Bus {
        id: Ex::c(RANGE),
        mult: sum(),
        args: vec![Ex::V(dv) - one()],
    });
    if g.chance(1, 3) {
        let c1: Fp<P> = gen_const(g);
        let c2: Fp<P> = gen_const(g);
        let e = Ex::C(c1) * Ex::V(a[g.usize(4)]) + Ex::C(c2) * Ex::V(if g.bool() { r } else { a[g.usize(4)] });
        let e = b.zeroed(e);
        b.assert_zero(e);
    }
    let Some(s) = enumerate::<P>(&b.sys, &handler, LIMIT) else {
        g.label("skipped: too many solutions");
        return Ok(());
    };
    if s.sols.len() > 5000 {
        g.label("skipped: too many solutions");
        return Ok(());
    }
    let mut hidden = m.clone();
    hidden.push(dv);
    c10_check_hiding::<P>(g, &b.sys, &handler, &s, &hidden)
}
fn c10_zero_check(g: &mut Gen) -> CaseResult {
    with_prime!(g, c10_zero_check_p, [11, 13, 17, 31])
}

/// One fixed input (see known-findings.txt): the comparison without the range check of `diff_val`
/// has the extra solution a = 0, result = 0, marker_1 = 1, diff_val = 0, which is lost.
fn c10_known(_g: &mut Gen) -> CaseResult {
    type F = Fp<17>;
    let handler = TinyBuses::<F>::new(1, true);
    let v = |i: u32| Ex::<F>::V(Var(i));
    let one = || Ex::<F>::c(1);
    let neg = |i: u32| Ex::C(-Fp::<17>(1)) * v(i);
    let pm = || Ex::<F>::c(2) * v(4) - one();
    let (m0, m1, m2, m3, dv) = (5, 6, 7, 8, 9);
    let sum = || v(m0) + v(m1) + v(m2) + v(m3);
    let mut sys = Sys::<F>::default();
    for i in 4..9 {
        sys.alg.push(v(i) * (v(i) - one()));
    }
    sys.alg.extend([
        (one() - v(m3)) * (neg(3) * pm()),
        (one() - v(m2) - v(m3)) * (neg(2) * pm()),
        (one() - v(m1) - v(m2) - v(m3)) * (neg(1) * pm()),
        (one() - sum()) * v(4),
        (one() - sum()) * ((one() - v(0)) * pm()),
        v(m0) * ((v(0) - one()) * pm() + v(dv)),
        v(m1) * (v(1) * pm() + v(dv)),
        v(m2) * (v(2) * pm() + v(dv)),
        v(m3) * (v(3) * pm() + v(dv)),
        sum() * (sum() - one()),
    ]);
    for i in 0..4 {
        sys.bus.push(Bus {
            id: Ex::c(RANGE),
            mult: one(),
            args: vec![v(i)],
        });
    }
    let mut next = 1000u32;
    let (out, _) = rule_based_optimization(
        IndexedConstraintSystem::from(sys.to_powdr()),
        NoRangeConstraints,
        handler.clone(),
        &mut |_: &str| {
            next += 1;
            Var(next)
        },
        None,
    );
    let out: ConstraintSystem<F, Var> = out.into();
    let w = |u: &Var| Fp::<17>((u.0 == m1) as u32);
    let mut ix = Index::new();
    let cs = CSys::of_powdr(&out, &mut ix);
    let full: Vec<F> = ix.vars.iter().map(w).collect();
    ensure!(
        cs.satisfied(&full, &handler),
        "zero-check-without-diff-val-range-check",
        "solution lost by the zero-check rule\n{sys}\n->\n{out}"
    );
    Ok(())
}

fn c10_patterns(g: &mut Gen) -> CaseResult {
    with_prime!(g, c10_patterns_p, [11, 13, 17, 31, 61])
}

/// Real fields: the witness survives (completeness only).
fn c10_real_t<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let bw = *g.pick(&[2u32, 3, 4]);
    let handler = TinyBuses::<T>::new(bw, g.bool());
    let mv = g.range(2, 8);
    let b = gen_system::<T>(g, bw, mv, 5);
    let ps = b.sys.to_powdr();
    let mut next = 1000u32;
    let mut new_var = |_: &str| {
        next += 1;
        Var(next)
    };
    let bound = DegreeBound {
        identities: 3,
        bus_interactions: 2,
    };
    // large but valid range constraints
    let mut rcs: HashMap<Var, Rc<T>> = HashMap::new();
    for (v, x) in &b.w {
        if g.chance(1, 4) {
            let top: T = real_val(g);
            let top = if top < *x { T::from(-2i64).max(*x) } else { top };
            rcs.insert(*v, Rc::from_range(T::zero(), top));
        }
    }
    let (out, asg) = if g.bool() {
        let mut solver = new_solver(ps.clone(), handler.clone());
        for (v, rc) in &rcs {
            solver.add_range_constraint(v, *rc);
        }
        solver
            .solve()
            .map_err(|e| Failure::new("solver-err", format!("{e:?}")))?;
        rule_based_optimization(ps.clone().into(), &solver, handler.clone(), &mut new_var, Some(bound))
    } else {
        rule_based_optimization(ps.clone().into(), &rcs, handler.clone(), &mut new_var, Some(bound))
    };
    let out: ConstraintSystem<T, Var> = out.into();
    g.note(|| format!("{}\n->\n{out}", b.sys));
    if !asg.is_empty() || format!("{out}") != format!("{ps}") {
        g.nontrivial();
    }
    let mut w = b.w.clone();
    for d in &out.derived_variables {
        let x = eval_method(&d.computation_method, &|u: &Var| w[u]);
        w.insert(d.variable, x);
    }
    for (v, e) in &asg {
        ensure!(
            eval_ge(e, &|u: &Var| w[u]) == w[v],
            "rule-assignment",
            "{v} := {e} contradicts the witness\n{}",
            b.sys
        );
    }
    let mut ix = Index::new();
    let cs = CSys::of_powdr(&out, &mut ix);
    let full: Vec<T> = ix.vars.iter().map(|v| w[v]).collect();
    if let Some(x) = cs.violated(&full, &handler) {
        return Err(Failure::new(
            "rule-lost",
            format!("witness violates {x}\n{}\n->\n{out}", b.sys),
        ));
    }
    Ok(())
}
fn c10_real(g: &mut Gen) -> CaseResult {
    match g.usize(2) {
        0 => c10_real_t::<BabyBearField>(g),
        _ => c10_real_t::<GoldilocksField>(g),
    }
}

fn main() {
    let _ = |x: BusInteraction<u32>| x;
    run(vec![
        Property {
            id: "C04",
            rule: "at least one derived range constraint is not unconstrained",
            assumptions: &[
                "tiny prime fields (7..127) are checked exhaustively over all field elements; the five real fields by sampled members",
            ],
            subs: vec![
                Sub { name: "tiny", f: c04_tiny, quick: 600_000, thorough: 30_000_000 },
                Sub { name: "real", f: c04_real, quick: 600_000, thorough: 30_000_000 },
            ],
        },
        Property {
            id: "C05",
            rule: "ops: at least one operand has a product term; symbolic: expression has unknowns; values: expression takes at least two values",
            assumptions: &["equality of functions is sampled at random points (exhaustive in 'values')"],
            subs: vec![
                Sub { name: "ops", f: c05_ops, quick: 150_000, thorough: 6_000_000 },
                Sub { name: "symbolic", f: c05_sym, quick: 300_000, thorough: 10_000_000 },
                Sub { name: "values", f: c05_values, quick: 200_000, thorough: 8_000_000 },
            ],
        },
        Property {
            id: "C06",
            rule: "the constraint produced an effect or was reported unsatisfiable",
            assumptions: &["tiny prime fields; all assignments within the given range constraints are enumerated (cases above 40000 assignments are skipped)"],
            subs: vec![
                Sub { name: "solve", f: c06_solve, quick: 300_000, thorough: 12_000_000 },
                Sub { name: "bus", f: c06_bus, quick: 200_000, thorough: 8_000_000 },
            ],
        },
        Property {
            id: "C07",
            rule: "the solver derived an assignment or a range constraint (or an error for unsatisfiable systems)",
            assumptions: &[
                "tiny prime fields 11..127 with table buses; all solutions enumerated",
                "number of variables below the field size",
                "real fields: only a hidden witness is tracked",
            ],
            subs: vec![
                Sub { name: "system", f: c07_system, quick: 60_000, thorough: 3_000_000 },
                Sub { name: "arbitrary", f: c07_arbitrary, quick: 60_000, thorough: 3_000_000 },
                Sub { name: "history", f: c07_history, quick: 40_000, thorough: 2_000_000 },
                Sub { name: "real", f: c07_real, quick: 40_000, thorough: 2_000_000 },
            ],
        },
        Property {
            id: "C08",
            rule: "a query got an informative answer / the search derived a constraint",
            assumptions: &["tiny prime fields 11..127 with table buses; all solutions enumerated"],
            subs: vec![
                Sub { name: "history", f: c08_history, quick: 80_000, thorough: 4_000_000 },
                Sub { name: "search", f: c08_search, quick: 80_000, thorough: 4_000_000 },
            ],
        },
        Property {
            id: "C09",
            rule: "inline: at least one variable inlined; indexed: at least one substitution; split: more than one part",
            assumptions: &["tiny prime fields; all solutions enumerated"],
            subs: vec![
                Sub { name: "inline", f: c09_inline, quick: 80_000, thorough: 4_000_000 },
                Sub { name: "indexed", f: c09_indexed, quick: 80_000, thorough: 4_000_000 },
                Sub { name: "split", f: c09_split, quick: 80_000, thorough: 4_000_000 },
            ],
        },
        Property {
            id: "C10",
            rule: "the rules changed the system",
            assumptions: &[
                "tiny prime fields 11..61; all solutions enumerated; number of boolean variables below the field size",
                "range constraints handed in are those the solver derived, or none",
                "real fields: only a hidden witness is tracked",
            ],
            subs: vec![
                Sub { name: "random", f: c10_rules, quick: 40_000, thorough: 2_000_000 },
                Sub { name: "patterns", f: c10_patterns, quick: 60_000, thorough: 3_000_000 },
                Sub { name: "known", f: c10_known, quick: 1, thorough: 1 },
                Sub { name: "zerocheck", f: c10_zero_check, quick: 10_000, thorough: 500_000 },
                Sub { name: "real", f: c10_real, quick: 20_000, thorough: 1_000_000 },
            ],
        },
    ])
}
