//! C26: circuits, expressions, precompiles and profile data, their serialised and printed forms.
use powdr_autoprecompiles::adapter::{AdapterVmConfig, ApcWithStats};
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, DebugInfo, EmpiricalConstraints};
use powdr_autoprecompiles::equivalence_classes::Partition;
use powdr_autoprecompiles::evaluation::{AirStats, EvaluationResult};
use powdr_autoprecompiles::execution::{
    LocalOptimisticLiteral, OptimisticConstraint, OptimisticConstraints, OptimisticExpression,
    OptimisticLiteral,
};
use powdr_autoprecompiles::export::{ApcWithBusMap, ExportLevel, ExportOptions, SimpleInstruction};
use powdr_autoprecompiles::expression::{
    AlgebraicEvaluator, AlgebraicExpression, AlgebraicReference, MappingRowEvaluator, RowEvaluator,
    WitnessEvaluator,
};
use powdr_autoprecompiles::expression_conversion::{
    algebraic_to_grouped_expression, grouped_expression_to_algebraic,
};
use powdr_autoprecompiles::powdr::globalize_references;
use powdr_autoprecompiles::symbolic_machine::{
    constraint_system_to_symbolic_machine, symbolic_machine_to_constraint_system,
    SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine,
};
use powdr_autoprecompiles::symbolic_machine_generator::{
    convert_apc_field_type, convert_machine_field_type,
};
use powdr_autoprecompiles::{build, Apc, DegreeBound, Substitution, VmConfig};
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_expression::{
    AlgebraicBinaryOperation, AlgebraicBinaryOperator as Bin, AlgebraicUnaryOperation,
};
use powdr_number::{
    BabyBearField, Bn254Field, FieldElement, GoldilocksField, KoalaBearField, LargeInt,
    Mersenne31Field,
};
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use powdr_verif_harness::case::*;
use powdr_verif_harness::circuit::gen_bound;
use powdr_verif_harness::engine::{catch, main as run, CaseResult, Failure, Gen, Property, Sub};
use powdr_verif_harness::model::{gen_const, Ex, Var};
use powdr_verif_harness::tiny::Fp;
use powdr_verif_harness::vm::*;
use powdr_verif_harness::{ensure, ensure_eq};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

fn panicked(e: String) -> Failure {
    Failure::new("panic", e)
}
fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, Failure> {
    catch(f).map_err(panicked)
}

type Al<T> = AlgebraicExpression<T>;
type Derived<T> = DerivedVariable<T, AlgebraicReference, Al<T>>;

// ---------------------------------------------------------------------------------------------
// Canonical text of objects, name by name and number by number

fn dump<T: FieldElement>(e: &Al<T>) -> String {
    match e {
        AlgebraicExpression::Reference(r) => format!("{:?}@{}", r.name, r.id),
        AlgebraicExpression::Number(n) => format!("{}", n.to_arbitrary_integer()),
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let o = match op {
                Bin::Add => "+",
                Bin::Sub => "-",
                Bin::Mul => "*",
            };
            format!("({}{o}{})", dump(left), dump(right))
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { expr, .. }) => {
            format!("neg({})", dump(expr))
        }
    }
}

fn dump_machine<T: FieldElement>(m: &SymbolicMachine<T>) -> String {
    let mut s = String::new();
    for c in &m.constraints {
        s += &format!("C {}\n", dump(&c.expr));
    }
    for b in &m.bus_interactions {
        s += &format!(
            "B {} {} {:?}\n",
            b.id,
            dump(&b.mult),
            b.args.iter().map(dump).collect::<Vec<_>>()
        );
    }
    for d in &m.derived_columns {
        s += &format!(
            "D {:?}@{} {}\n",
            d.variable.name,
            d.variable.id,
            match &d.computation_method {
                ComputationMethod::Constant(c) => format!("const {}", c.to_arbitrary_integer()),
                ComputationMethod::QuotientOrZero(a, b) => format!("{} / {}", dump(a), dump(b)),
            }
        );
    }
    s
}

fn dump_apc<T: FieldElement, I: std::fmt::Debug, A, V>(a: &Apc<T, I, A, V>) -> String {
    format!("{}{:?}\n{}", dump_machine(&a.machine), a.block, dump_subs(&a.subs))
}
fn dump_subs(s: &[Vec<Substitution>]) -> String {
    s.iter()
        .map(|s| s.iter().map(|s| format!("{}>{} ", s.original_poly_index, s.apc_poly_id)).collect::<String>() + "\n")
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Own evaluation

fn ev<T: FieldElement>(e: &Al<T>, w: &impl Fn(u64) -> T) -> T {
    match e {
        AlgebraicExpression::Reference(r) => w(r.id),
        AlgebraicExpression::Number(n) => *n,
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let (l, r) = (ev(left, w), ev(right, w));
            match op {
                Bin::Add => l + r,
                Bin::Sub => l - r,
                Bin::Mul => l * r,
            }
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { expr, .. }) => -ev(expr, w),
    }
}

fn ids<T>(e: &Al<T>, out: &mut BTreeSet<u64>) {
    match e {
        AlgebraicExpression::Reference(r) => {
            out.insert(r.id);
        }
        AlgebraicExpression::Number(_) => {}
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, right, .. }) => {
            ids(left, out);
            ids(right, out);
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { expr, .. }) => ids(expr, out),
    }
}

/// Value of a printed expression: `*` binds stronger than `+` and `-`, which group to the left;
/// a sign in front of a factor belongs to the factor.
fn parse<T: FieldElement>(text: &str, w: &impl Fn(&str) -> Option<T>) -> Result<T, String> {
    struct P<'a, F> {
        s: Vec<char>,
        i: usize,
        w: &'a F,
    }
    impl<F> P<'_, F> {
        fn peek(&mut self) -> Option<char> {
            while self.i < self.s.len() && self.s[self.i] == ' ' {
                self.i += 1;
            }
            self.s.get(self.i).copied()
        }
        fn expr<T: FieldElement>(&mut self) -> Result<T, String>
        where
            F: Fn(&str) -> Option<T>,
        {
            let mut v: T = self.term()?;
            loop {
                match self.peek() {
                    Some('+') => {
                        self.i += 1;
                        v += self.term::<T>()?;
                    }
                    Some('-') => {
                        self.i += 1;
                        v -= self.term::<T>()?;
                    }
                    _ => return Ok(v),
                }
            }
        }
        fn term<T: FieldElement>(&mut self) -> Result<T, String>
        where
            F: Fn(&str) -> Option<T>,
        {
            let mut v: T = self.unary()?;
            while self.peek() == Some('*') {
                self.i += 1;
                v = v * self.unary::<T>()?;
            }
            Ok(v)
        }
        fn unary<T: FieldElement>(&mut self) -> Result<T, String>
        where
            F: Fn(&str) -> Option<T>,
        {
            match self.peek() {
                Some('-') => {
                    self.i += 1;
                    Ok(-self.unary::<T>()?)
                }
                Some('(') => {
                    self.i += 1;
                    let v: T = self.expr()?;
                    if self.peek() != Some(')') {
                        return Err(format!("no closing parenthesis at {}", self.i));
                    }
                    self.i += 1;
                    Ok(v)
                }
                Some(c) if c.is_ascii_digit() => {
                    let mut v = T::from(0u64);
                    while let Some(d) = self.s.get(self.i).and_then(|c| c.to_digit(10)) {
                        v = v * T::from(10u64) + T::from(d as u64);
                        self.i += 1;
                    }
                    Ok(v)
                }
                Some(c) if c.is_ascii_alphabetic() || c == '_' => {
                    let start = self.i;
                    while self.s.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || *c == '_') {
                        self.i += 1;
                    }
                    let name: String = self.s[start..self.i].iter().collect();
                    (self.w)(&name).ok_or(format!("unknown name {name}"))
                }
                other => Err(format!("unexpected {other:?} at {}", self.i)),
            }
        }
    }
    let mut p = P { s: text.chars().collect(), i: 0, w };
    let v = p.expr()?;
    match p.peek() {
        None => Ok(v),
        Some(c) => Err(format!("unexpected {c:?} at {}", p.i)),
    }
}

/// Splits at commas outside of parentheses.
fn split_args(s: &str) -> Vec<&str> {
    if s.is_empty() {
        return vec![];
    }
    let (mut out, mut depth, mut start) = (vec![], 0, 0);
    for (i, c) in s.char_indices() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            ',' if depth == 0 => {
                out.push(&s[start..i]);
                start = i + 1;
            }
            _ => {}
        }
    }
    out.push(&s[start..]);
    out
}

// ---------------------------------------------------------------------------------------------
// Generators

/// Names with everything a name may contain.
fn gen_name(g: &mut Gen) -> String {
    const PARTS: [&str; 16] = [
        "a", "b__0", "rs1_data__3_0", "@", "@7", "12", " ", "", "\"", "\\", "é", "is_valid", "\u{1F600}", "x@3@", "+", "-",
    ];
    let n = g.range(0, 3);
    (0..n).map(|_| *g.pick(&PARTS)).collect()
}
fn gen_id(g: &mut Gen) -> u64 {
    match g.usize(4) {
        0 | 1 => g.below(12),
        2 => g.below(1 << 20),
        _ => u64::MAX - g.below(3),
    }
}

/// Columns available to expressions: (id, name); an id has one name.
fn gen_columns(g: &mut Gen, plain: bool) -> Vec<AlgebraicReference> {
    let n = g.range(1, 6);
    let mut out: Vec<AlgebraicReference> = vec![];
    for i in 0..n {
        let id = if plain { i as u64 } else { gen_id(g) };
        if out.iter().any(|r| r.id == id) {
            continue;
        }
        let name = if plain { format!("{}{}", g.pick(&["x", "is_valid_", "b__0_", "_t"]), id) } else { gen_name(g) };
        out.push(AlgebraicReference { name: Arc::new(name), id });
    }
    out
}

fn gen_expr<T: FieldElement>(g: &mut Gen, cols: &[AlgebraicReference], size: usize) -> Al<T> {
    if size <= 1 {
        return if g.bool() {
            AlgebraicExpression::Reference(g.pick(cols).clone())
        } else {
            AlgebraicExpression::Number(gen_const(g))
        };
    }
    match g.usize(7) {
        0 => -gen_expr(g, cols, size - 1),
        k => {
            // comb or balanced
            let l = match g.usize(3) {
                0 => 1,
                1 => size - 1,
                _ => size / 2,
            }
            .clamp(1, size - 1);
            let a = gen_expr(g, cols, l);
            let b = gen_expr(g, cols, size - l);
            match k {
                1 | 2 => a + b,
                3 | 4 => a - b,
                _ => a * b,
            }
        }
    }
}

fn gen_machine<T: FieldElement>(g: &mut Gen, cols: &[AlgebraicReference], buses: &[u64]) -> SymbolicMachine<T> {
    let size = |g: &mut Gen| g.range(1, 8);
    let nc = g.usize(4);
    let nb = g.usize(4);
    let nd = g.usize(3);
    SymbolicMachine {
        constraints: (0..nc)
            .map(|_| {
                let s = size(g);
                SymbolicConstraint { expr: gen_expr(g, cols, s) }
            })
            .collect(),
        bus_interactions: (0..nb)
            .map(|_| {
                let n = g.usize(4);
                let s = size(g);
                SymbolicBusInteraction {
                    id: *g.pick(buses),
                    mult: gen_expr(g, cols, s),
                    args: (0..n)
                        .map(|_| {
                            let s = size(g);
                            gen_expr(g, cols, s)
                        })
                        .collect(),
                }
            })
            .collect(),
        derived_columns: (0..nd)
            .map(|i| {
                let variable = if g.bool() {
                    g.pick(cols).clone()
                } else {
                    AlgebraicReference { name: Arc::new(gen_name(g)), id: 1000 + i as u64 }
                };
                let m = if g.bool() {
                    ComputationMethod::Constant(gen_const(g))
                } else {
                    let (s, t) = (size(g), size(g));
                    ComputationMethod::QuotientOrZero(gen_expr(g, cols, s), gen_expr(g, cols, t))
                };
                DerivedVariable::new(variable, m)
            })
            .collect(),
    }
}

/// Values of columns.
fn witness<T: FieldElement>(g: &mut Gen, ids: impl IntoIterator<Item = u64>) -> BTreeMap<u64, T> {
    ids.into_iter().map(|i| (i, gen_const(g))).collect()
}

// ---------------------------------------------------------------------------------------------
// Round trips

#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Json,
    PrettyJson,
    JsonReader,
    JsonValue,
    Cbor,
}
const FORMATS: [Format; 5] =
    [Format::Json, Format::PrettyJson, Format::JsonReader, Format::JsonValue, Format::Cbor];

fn through<A: Serialize, B: DeserializeOwned>(f: Format, x: &A) -> Result<B, Failure> {
    let bad = |e: String| Failure::new("unreadable", format!("{f:?}: {e}\n{:?}", serde_json::to_string(x).ok()));
    quiet(|| match f {
        Format::Json => serde_json::to_string(x)
            .map_err(|e| format!("writing: {e}"))
            .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())),
        Format::PrettyJson => serde_json::to_string_pretty(x)
            .map_err(|e| format!("writing: {e}"))
            .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())),
        Format::JsonReader => serde_json::to_vec(x)
            .map_err(|e| format!("writing: {e}"))
            .and_then(|s| serde_json::from_reader(&s[..]).map_err(|e| e.to_string())),
        Format::JsonValue => serde_json::to_value(x)
            .map_err(|e| format!("writing: {e}"))
            .and_then(|s| serde_json::from_value(s).map_err(|e| e.to_string())),
        Format::Cbor => serde_cbor::to_vec(x)
            .map_err(|e| format!("writing: {e}"))
            .and_then(|s| serde_cbor::from_slice(&s).map_err(|e| e.to_string())),
    })?
    .map_err(bad)
}

fn serde_expr<T: FieldElement + Serialize + DeserializeOwned>(g: &mut Gen) -> CaseResult {
    let cols = gen_columns(g, false);
    let size = g.range(1, 30);
    let e: Al<T> = gen_expr(g, &cols, size);
    let f = *g.pick(&FORMATS);
    g.note(|| format!("{f:?} {}", dump(&e)));
    let back: Al<T> = through(f, &e)?;
    ensure!(dump(&e) == dump(&back), "changed", "{f:?}: {} became {}", dump(&e), dump(&back));
    // a grouped expression is written in the same format
    let ge: GroupedExpression<T, AlgebraicReference> = quiet(|| algebraic_to_grouped_expression(&e))?;
    let read: Al<T> = through(f, &ge)?;
    let mut v = BTreeSet::new();
    ids(&e, &mut v);
    ids(&read, &mut v);
    for _ in 0..2 {
        let w = witness::<T>(g, v.iter().copied());
        let val = |i: u64| w[&i];
        ensure!(
            ev(&e, &val) == ev(&read, &val),
            "grouped-changed",
            "{f:?}: {} is written as {}; they differ for {w:?}",
            dump(&e),
            dump(&read)
        );
    }
    if size > 3 {
        g.nontrivial();
    }
    Ok(())
}

fn serde_machine<T: FieldElement + Serialize + DeserializeOwned>(g: &mut Gen) -> CaseResult {
    let cols = gen_columns(g, false);
    let buses: Vec<u64> = (0..3).map(|_| gen_id(g)).collect();
    let m: SymbolicMachine<T> = gen_machine(g, &cols, &buses);
    let f = *g.pick(&FORMATS);
    g.note(|| format!("{f:?}\n{}", dump_machine(&m)));
    let back: SymbolicMachine<T> = through(f, &m)?;
    ensure!(dump_machine(&m) == dump_machine(&back), "changed", "{f:?}: {} became {}", dump_machine(&m), dump_machine(&back));
    if !m.constraints.is_empty() && !m.bus_interactions.is_empty() {
        g.nontrivial();
    }
    Ok(())
}

fn serde_any(g: &mut Gen) -> CaseResult {
    match (g.usize(6), g.bool()) {
        (0, false) => serde_expr::<BabyBearField>(g),
        (0, true) => serde_machine::<BabyBearField>(g),
        (1, false) => serde_expr::<KoalaBearField>(g),
        (1, true) => serde_machine::<KoalaBearField>(g),
        (2, false) => serde_expr::<Mersenne31Field>(g),
        (2, true) => serde_machine::<Mersenne31Field>(g),
        (3, false) => serde_expr::<GoldilocksField>(g),
        (3, true) => serde_machine::<GoldilocksField>(g),
        (4, false) => serde_expr::<Bn254Field>(g),
        (4, true) => serde_machine::<Bn254Field>(g),
        (_, false) => serde_expr::<BabyBearField>(g),
        (_, true) => serde_machine::<BabyBearField>(g),
    }
}

// ---------------------------------------------------------------------------------------------
// Printing

fn check_text<T: FieldElement>(
    text: &str,
    cols: &[AlgebraicReference],
    w: &BTreeMap<u64, T>,
    want: T,
    what: &str,
) -> CaseResult {
    let look = |n: &str| cols.iter().find(|c| *c.name == n).map(|c| w[&c.id]);
    let got = parse(text, &look)
        .map_err(|e| Failure::new(format!("{what}-not-an-expression"), format!("{text}: {e}")))?;
    ensure!(got == want, format!("{what}-value"), "{text} has value {got} instead of {want} for {w:?}");
    Ok(())
}

fn print_with<T: FieldElement + Serialize>(g: &mut Gen) -> CaseResult {
    let cols = gen_columns(g, true);
    let w: BTreeMap<u64, T> = witness(g, cols.iter().map(|c| c.id));
    let val = |i: u64| w[&i];
    let size = g.range(1, 16);
    let e: Al<T> = gen_expr(g, &cols, size);
    g.note(|| dump(&e));
    let text = quiet(|| e.to_string())?;
    check_text(&text, &cols, &w, ev(&e, &val), "print")?;
    let ge: GroupedExpression<T, AlgebraicReference> = quiet(|| algebraic_to_grouped_expression(&e))?;
    let text = quiet(|| ge.to_string())?;
    check_text(&text, &cols, &w, ev(&e, &val), "print-grouped")?;
    let back = quiet(|| grouped_expression_to_algebraic(ge.clone()))?;
    ensure!(
        ev(&back, &val) == ev(&e, &val),
        "ungrouped-value",
        "{} was grouped and ungrouped to {}; they differ for {w:?}",
        dump(&e),
        dump(&back)
    );
    check_text(&back.to_string(), &cols, &w, ev(&e, &val), "print-ungrouped")?;
    // a whole circuit
    let buses = [0u64, 3, 9];
    let m: SymbolicMachine<T> = gen_machine(g, &cols, &buses);
    let text = quiet(|| m.to_string())?;
    let lines: Vec<&str> = text.lines().collect();
    ensure_eq!(lines.len(), m.bus_interactions.len() + m.constraints.len(), "printed-lines");
    let bus_line = |text: &str, b: &SymbolicBusInteraction<T>| -> CaseResult {
        let bad = || Failure::new("printed-interaction", text.to_string());
        let rest = text.strip_prefix("mult=").ok_or_else(bad)?;
        let (mult, args) = rest.split_once(", args=[").ok_or_else(bad)?;
        let args = split_args(args.strip_suffix(']').ok_or_else(bad)?);
        check_text(mult, &cols, &w, ev(&b.mult, &val), "print-mult")?;
        ensure_eq!(args.len(), b.args.len(), "printed-args");
        for (t, a) in args.iter().zip(&b.args) {
            check_text(t, &cols, &w, ev(a, &val), "print-arg")?;
        }
        Ok(())
    };
    for (l, b) in lines.iter().zip(&m.bus_interactions) {
        let rest = l
            .strip_prefix(&format!("(id={}, ", b.id))
            .and_then(|r| r.strip_suffix(')'))
            .ok_or_else(|| Failure::new("printed-interaction", l.to_string()))?;
        bus_line(rest, b)?;
    }
    for (l, c) in lines[m.bus_interactions.len()..].iter().zip(&m.constraints) {
        let t = l.strip_suffix(" = 0").ok_or_else(|| Failure::new("printed-constraint", l.to_string()))?;
        check_text(t, &cols, &w, ev(&c.expr, &val), "print-constraint")?;
    }
    // the human-readable form: interactions grouped by bus, in their order
    let map: BusMap<String> = BusMap::from_id_type_pairs([
        (0, BusType::ExecutionBridge),
        (3, BusType::Memory),
        (9, BusType::Other("nine".to_string())),
    ]);
    let r = quiet(|| m.render(&map))?;
    let mut columns = BTreeSet::new();
    for c in &m.constraints {
        ids(&c.expr, &mut columns);
    }
    for b in &m.bus_interactions {
        ids(&b.mult, &mut columns);
        b.args.iter().for_each(|a| ids(a, &mut columns));
    }
    let first = r.lines().next().unwrap_or("");
    ensure!(
        first.contains(&format!(" {} ", columns.len())),
        "rendered-columns",
        "{first:?}, but there are {} columns",
        columns.len()
    );
    let body: Vec<&str> = r.lines().collect();
    for id in &columns {
        let c = cols.iter().find(|c| c.id == *id).unwrap();
        ensure!(
            body.iter().any(|l| l.trim() == *c.name),
            "rendered-columns",
            "column {} is not listed in:\n{r}",
            c.name
        );
    }
    let mut want: Vec<&SymbolicBusInteraction<T>> = m.bus_interactions.iter().collect();
    want.sort_by_key(|b| b.id);
    let got: Vec<&&str> = body.iter().filter(|l| l.starts_with("mult=")).collect();
    ensure_eq!(got.len(), want.len(), "rendered-interactions");
    for (l, b) in got.iter().zip(&want) {
        bus_line(l, b)?;
    }
    // every group of interactions stands below the line of its bus
    let mut current = None;
    let mut k = 0;
    for l in &body {
        if let Some(rest) = l.strip_prefix("// Bus ") {
            current = rest.split(' ').next().and_then(|x| x.parse::<u64>().ok());
        } else if l.starts_with("mult=") {
            ensure!(current == Some(want[k].id), "rendered-bus", "interaction {k} stands below bus {current:?}:\n{r}");
            k += 1;
        }
    }
    let got: Vec<&str> = body.iter().filter_map(|l| l.strip_suffix(" = 0")).collect();
    ensure_eq!(got.len(), m.constraints.len(), "rendered-constraints");
    for (t, c) in got.iter().zip(&m.constraints) {
        check_text(t, &cols, &w, ev(&c.expr, &val), "render-constraint")?;
    }
    if size > 3 {
        g.nontrivial();
    }
    Ok(())
}

fn print_any(g: &mut Gen) -> CaseResult {
    match g.usize(6) {
        0 => print_with::<BabyBearField>(g),
        1 => print_with::<KoalaBearField>(g),
        2 => print_with::<Mersenne31Field>(g),
        3 => print_with::<GoldilocksField>(g),
        4 => print_with::<Bn254Field>(g),
        _ => print_with::<Fp<13>>(g),
    }
}

// ---------------------------------------------------------------------------------------------
// Conversions and evaluation

fn same_values<T: FieldElement>(
    a: &SymbolicMachine<T>,
    b: &SymbolicMachine<T>,
    w: &BTreeMap<u64, T>,
    sign: bool,
    what: &str,
) -> CaseResult {
    let val = |i: u64| w[&i];
    ensure_eq!(a.constraints.len(), b.constraints.len(), format!("{what}-constraints"));
    for (x, y) in a.constraints.iter().zip(&b.constraints) {
        let (u, v) = (ev(&x.expr, &val), ev(&y.expr, &val));
        ensure!(
            u == v || sign && u == -v,
            format!("{what}-constraint"),
            "{} and {} differ for {w:?}",
            dump(&x.expr),
            dump(&y.expr)
        );
    }
    ensure_eq!(a.bus_interactions.len(), b.bus_interactions.len(), format!("{what}-interactions"));
    for (x, y) in a.bus_interactions.iter().zip(&b.bus_interactions) {
        let f = |b: &SymbolicBusInteraction<T>| {
            (b.id, ev(&b.mult, &val), b.args.iter().map(|a| ev(a, &val)).collect::<Vec<_>>())
        };
        ensure!(f(x) == f(y), format!("{what}-interaction"), "{x} and {y} differ for {w:?}");
    }
    ensure_eq!(a.derived_columns.len(), b.derived_columns.len(), format!("{what}-derived"));
    for (x, y) in a.derived_columns.iter().zip(&b.derived_columns) {
        let f = |d: &Derived<T>| {
            let v = match &d.computation_method {
                ComputationMethod::Constant(c) => vec![*c],
                ComputationMethod::QuotientOrZero(a, b) => vec![ev(a, &val), ev(b, &val)],
            };
            (d.variable.name.clone(), d.variable.id, v)
        };
        ensure!(f(x) == f(y), format!("{what}-derived"), "{:?} and {:?} differ", f(x), f(y));
    }
    Ok(())
}

fn convert_with<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let cols = gen_columns(g, true);
    // a column that is derived but not used elsewhere has an id of its own
    let buses = [0u64, 1, 7, 12];
    let m: SymbolicMachine<T> = gen_machine(g, &cols, &buses);
    g.note(|| dump_machine(&m));
    let w: BTreeMap<u64, T> = witness(g, cols.iter().map(|c| c.id));
    let val = |i: u64| w[&i];

    // field types
    #[derive(Clone, Copy)]
    struct Boxed<T>(T);
    let there = quiet(|| convert_machine_field_type(m.clone(), &|x: T| Boxed(x)))?;
    let back = quiet(|| convert_machine_field_type(there, &|x: Boxed<T>| x.0))?;
    ensure!(dump_machine(&m) == dump_machine(&back), "field-conversion", "{}became\n{}", dump_machine(&m), dump_machine(&back));
    // a homomorphism of fields: multiplication by a constant of the numbers alone must reach
    // every number
    let neg = quiet(|| convert_machine_field_type(m.clone(), &|x: T| -x))?;
    let want = map_numbers(&m, &|x| -x);
    ensure!(dump_machine(&neg) == dump_machine(&want), "field-conversion-map", "{}became\n{}", dump_machine(&m), dump_machine(&neg));

    // constraint systems
    let cs = quiet(|| symbolic_machine_to_constraint_system(m.clone()))?;
    let back = quiet(|| constraint_system_to_symbolic_machine(cs))?;
    same_values(&m, &back, &w, true, "constraint-system")?;

    // evaluators
    let n = cols.iter().map(|c| c.id).max().unwrap() as usize + 1;
    let row: Vec<T> = (0..n as u64).map(|i| w.get(&i).copied().unwrap_or(T::from(0u64))).collect();
    let mut place: Vec<usize> = (0..n).collect();
    g.shuffle(&mut place);
    let extra = g.usize(3);
    let mut shuffled = vec![T::from(5u64); n + extra];
    for (i, p) in place.iter().enumerate() {
        shuffled[*p] = row[i];
    }
    let index: BTreeMap<u64, usize> = place.iter().enumerate().map(|(i, p)| (i as u64, *p)).collect();
    let byrow = RowEvaluator::new(&row);
    let bymap = MappingRowEvaluator::new(&shuffled, &index);
    let bywit = WitnessEvaluator::<T, T, T>::new(&w);
    for c in &m.constraints {
        let want = ev(&c.expr, &val);
        for (k, got) in [
            byrow.eval_constraint(c).expr,
            bymap.eval_constraint(c).expr,
            bywit.eval_constraint(c).expr,
        ]
        .into_iter()
        .enumerate()
        {
            ensure!(got == want, "evaluator", "evaluator {k} gives {got} instead of {want} for {c} and {w:?}");
        }
    }
    for b in &m.bus_interactions {
        let want = (b.id, ev(&b.mult, &val), b.args.iter().map(|a| ev(a, &val)).collect::<Vec<_>>());
        macro_rules! got {
            ($e:expr) => {{
                let c = $e.eval_bus_interaction(b);
                (c.id, c.mult, c.args.collect::<Vec<_>>())
            }};
        }
        ensure_eq!(got!(byrow), want, "evaluator-bus");
        ensure_eq!(got!(bymap), want, "evaluator-bus");
        ensure_eq!(got!(bywit), want, "evaluator-bus");
    }

    // counts
    let mut columns = BTreeSet::new();
    for c in &m.constraints {
        ids(&c.expr, &mut columns);
    }
    for b in &m.bus_interactions {
        ids(&b.mult, &mut columns);
        b.args.iter().for_each(|a| ids(a, &mut columns));
    }
    let stats = AirStats::new(&m);
    ensure_eq!(
        (stats.main_columns, stats.constraints, stats.bus_interactions),
        (columns.len(), m.constraints.len(), m.bus_interactions.len()),
        "stats"
    );
    let listed: Vec<u64> = m.main_columns().map(|c| c.id).collect();
    ensure_eq!(listed, columns.iter().copied().collect::<Vec<_>>(), "main-columns");
    let deg = m
        .constraints
        .iter()
        .map(|c| degree(&c.expr))
        .chain(m.bus_interactions.iter().flat_map(|b| std::iter::once(&b.mult).chain(&b.args).map(degree)))
        .max()
        .unwrap_or(0);
    ensure_eq!(m.degree(), deg, "degree");

    // joining
    let m2: SymbolicMachine<T> = gen_machine(g, &cols, &buses);
    let joined = quiet(|| m.clone().concatenate(m2.clone()))?;
    let mut both = m.clone();
    both.constraints.extend(m2.constraints.iter().cloned());
    both.bus_interactions.extend(m2.bus_interactions.iter().cloned());
    both.derived_columns.extend(m2.derived_columns.iter().cloned());
    ensure!(dump_machine(&joined) == dump_machine(&both), "concatenate", "{}", dump_machine(&joined));

    // moving columns to new ids: names get the suffix, ids the offset
    let contiguous = !columns.is_empty() && columns.iter().copied().eq(0..columns.len() as u64);
    if contiguous && m.derived_columns.is_empty() {
        g.label("globalized");
        let offset = g.below(1000);
        let suffix = g.usize(200);
        let (next, subs, moved) = quiet(|| globalize_references(m.clone(), offset, suffix))?;
        ensure_eq!(next, offset + columns.len() as u64, "globalize-next");
        ensure_eq!(subs, (offset..next).collect::<Vec<_>>(), "globalize-subs");
        let want = map_refs(&m, &|r| AlgebraicReference {
            name: Arc::new(format!("{}_{suffix}", r.name)),
            id: r.id + offset,
        });
        ensure!(dump_machine(&moved) == dump_machine(&want), "globalize", "{}became\n{}", dump_machine(&m), dump_machine(&moved));
    }
    if !m.constraints.is_empty() && !m.bus_interactions.is_empty() {
        g.nontrivial();
    }
    Ok(())
}

fn degree<T>(e: &Al<T>) -> usize {
    match e {
        AlgebraicExpression::Reference(_) => 1,
        AlgebraicExpression::Number(_) => 0,
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => match op {
            Bin::Mul => degree(left) + degree(right),
            _ => degree(left).max(degree(right)),
        },
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { expr, .. }) => degree(expr),
    }
}

fn map_expr<T: FieldElement>(
    e: &Al<T>,
    n: &impl Fn(T) -> T,
    r: &impl Fn(&AlgebraicReference) -> AlgebraicReference,
) -> Al<T> {
    match e {
        AlgebraicExpression::Reference(x) => AlgebraicExpression::Reference(r(x)),
        AlgebraicExpression::Number(x) => AlgebraicExpression::Number(n(*x)),
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let (a, b) = (map_expr(left, n, r), map_expr(right, n, r));
            match op {
                Bin::Add => a + b,
                Bin::Sub => a - b,
                Bin::Mul => a * b,
            }
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { expr, .. }) => -map_expr(expr, n, r),
    }
}
fn map_machine<T: FieldElement>(
    m: &SymbolicMachine<T>,
    n: &impl Fn(T) -> T,
    r: &impl Fn(&AlgebraicReference) -> AlgebraicReference,
) -> SymbolicMachine<T> {
    SymbolicMachine {
        constraints: m.constraints.iter().map(|c| SymbolicConstraint { expr: map_expr(&c.expr, n, r) }).collect(),
        bus_interactions: m
            .bus_interactions
            .iter()
            .map(|b| SymbolicBusInteraction {
                id: b.id,
                mult: map_expr(&b.mult, n, r),
                args: b.args.iter().map(|a| map_expr(a, n, r)).collect(),
            })
            .collect(),
        derived_columns: m
            .derived_columns
            .iter()
            .map(|d| {
                DerivedVariable::new(
                    r(&d.variable),
                    match &d.computation_method {
                        ComputationMethod::Constant(c) => ComputationMethod::Constant(n(*c)),
                        ComputationMethod::QuotientOrZero(a, b) => {
                            ComputationMethod::QuotientOrZero(map_expr(a, n, r), map_expr(b, n, r))
                        }
                    },
                )
            })
            .collect(),
    }
}
fn map_numbers<T: FieldElement>(m: &SymbolicMachine<T>, n: &impl Fn(T) -> T) -> SymbolicMachine<T> {
    map_machine(m, n, &|r| r.clone())
}
fn map_refs<T: FieldElement>(
    m: &SymbolicMachine<T>,
    r: &impl Fn(&AlgebraicReference) -> AlgebraicReference,
) -> SymbolicMachine<T> {
    map_machine(m, &|n| n, r)
}

fn convert_any(g: &mut Gen) -> CaseResult {
    match g.usize(5) {
        0 => convert_with::<BabyBearField>(g),
        1 => convert_with::<KoalaBearField>(g),
        2 => convert_with::<GoldilocksField>(g),
        3 => convert_with::<Bn254Field>(g),
        _ => convert_with::<Fp<13>>(g),
    }
}

// ---------------------------------------------------------------------------------------------
// Profile data

fn classes<T: Ord + Clone + Eq + std::hash::Hash>(p: &Partition<T>) -> BTreeSet<BTreeSet<T>> {
    p.to_classes().into_iter().map(|c| c.into_iter().collect()).collect()
}

fn gen_partition(g: &mut Gen) -> (Partition<BlockCell>, BTreeSet<BTreeSet<BlockCell>>) {
    let mut cells: BTreeSet<BlockCell> = BTreeSet::new();
    for _ in 0..g.usize(10) {
        cells.insert(BlockCell::new(g.usize(4), g.usize(5)));
    }
    let k = g.range(1, 5);
    let mut groups: Vec<BTreeSet<BlockCell>> = vec![BTreeSet::new(); k];
    for c in cells {
        groups[g.usize(k)].insert(c);
    }
    let p = groups.iter().cloned().collect();
    (p, groups.into_iter().filter(|c| c.len() > 1).collect())
}

fn gen_optimistic(g: &mut Gen, len: usize) -> OptimisticConstraints<u8, u64> {
    let n = g.usize(5);
    let lit = |g: &mut Gen| {
        OptimisticExpression::Literal(OptimisticLiteral {
            instr_idx: g.usize(len.max(1)),
            val: if g.chance(1, 4) {
                LocalOptimisticLiteral::Pc
            } else {
                LocalOptimisticLiteral::RegisterLimb(g.below(256) as u8, g.usize(4))
            },
        })
    };
    OptimisticConstraints::from_constraints(
        (0..n)
            .map(|_| OptimisticConstraint {
                left: lit(g),
                right: if g.bool() { lit(g) } else { OptimisticExpression::Number(gen_id(g)) },
            })
            .collect(),
    )
}

fn profile(g: &mut Gen) -> CaseResult {
    let f = *g.pick(&FORMATS);
    let (p, want) = gen_partition(g);
    ensure_eq!(classes(&p), want, "partition-classes");
    let back: Partition<BlockCell> = through(f, &p)?;
    ensure_eq!(classes(&back), want, "partition-changed");

    let oc = gen_optimistic(g, 6);
    g.note(|| format!("{f:?} {oc:?} {want:?}"));
    let back: OptimisticConstraints<u8, u64> = through(f, &oc)?;
    ensure!(back == oc, "optimistic-changed", "{f:?}: {oc:?} became {back:?}");

    let mut ec = EmpiricalConstraints::default();
    let mut blocks = BTreeMap::new();
    for _ in 0..g.usize(3) {
        let (p, want) = gen_partition(g);
        let pc = gen_id(g);
        ec.equivalence_classes_by_block.insert(pc, p);
        blocks.insert(pc, want);
    }
    for _ in 0..g.usize(4) {
        let n = g.usize(4);
        let pc = g.u64() as u32;
        ec.column_ranges_by_pc.insert(pc, (0..n).map(|_| (g.u64() as u32, g.u64() as u32)).collect());
        ec.pc_counts.insert(pc, gen_id(g));
    }
    ec.debug_info = DebugInfo {
        air_id_by_pc: (0..g.usize(3)).map(|i| (i as u32 * 4, g.usize(5))).collect(),
        column_names_by_air_id: (0..g.usize(3)).map(|i| (i, (0..g.usize(3)).map(|_| gen_name(g)).collect())).collect(),
    };
    let back: EmpiricalConstraints = through(f, &ec)?;
    ensure_eq!(back.column_ranges_by_pc, ec.column_ranges_by_pc, "empirical-ranges");
    ensure_eq!(back.pc_counts, ec.pc_counts, "empirical-counts");
    ensure_eq!(format!("{:?}", back.debug_info), format!("{:?}", ec.debug_info), "empirical-debug");
    let got: BTreeMap<u64, _> =
        back.equivalence_classes_by_block.iter().map(|(k, v)| (*k, classes(v))).collect();
    ensure_eq!(got, blocks, "empirical-classes");
    if !blocks.is_empty() && oc != OptimisticConstraints::empty() {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Precompiles

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("TMPDIR").unwrap_or("/tmp".to_string());
        let p = std::path::Path::new(&base).join(format!(
            "powdr-verif-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn level(g: &mut Gen) -> (ExportLevel, usize) {
    match g.usize(3) {
        0 => (ExportLevel::OnlyAPC, 1),
        1 => (ExportLevel::APCAndOptimizerLoop, 2),
        _ => (ExportLevel::APCAndOptimizerSteps, 3),
    }
}

macro_rules! apc_case {
    ($name:ident, $adapter:ty, $pf:ty, $f:ty, $step:expr, $bt:ty, $conv:expr, $back:expr, $buses:expr, $map:expr) => {
        fn $name(g: &mut Gen, kit: Kit, len: usize, cols: usize) -> CaseResult {
            let case: Case<$pf> = gen_case(g, kit, len, cols, 1);
            let bound: DegreeBound = gen_bound(g, &case.sys);
            let h: Handler<$f, $step> = handler(&case.vm, &$conv, bound);
            let cfg = || -> AdapterVmConfig<$adapter> {
                VmConfig { instruction_handler: &h, bus_interaction_handler: $buses(&case.vm.kit), bus_map: $map }
            };
            let block = superblock::<$step>(&case.blocks);
            g.note(|| case.show());
            let go = |x: ExportOptions| {
                catch(|| build::<$adapter>(block.clone(), cfg(), bound, x, &EmpiricalConstraints::default()))
            };
            let plain = match go(ExportOptions::default()) {
                Ok(Ok(a)) => a,
                // C11, C15 and C18 judge whether a precompile is built
                _ => return Ok(()),
            };
            let conv = |m: &SymbolicMachine<$f>| convert_machine_field_type(m.clone(), &$back);

            // with export
            let dir = Scratch::new();
            let (lev, number) = level(g);
            let pcs = block.start_pcs();
            let x = if g.bool() {
                ExportOptions::new(Some(dir.0.join("deep/er")), &pcs, lev)
            } else {
                let p = dir.0.join("deep/er").to_string_lossy().to_string();
                ExportOptions::from_env_vars(Some(p), Some(number.to_string()), &pcs)
            };
            let exported = match go(x) {
                Ok(Ok(a)) => a,
                Ok(Err(e)) => return Err(Failure::new("export-error", format!("{e:?}"))),
                Err(e) => return Err(Failure::new("export-panic", e)),
            };
            let text = |a: &Apc<$f, StepIns<$step>, u8, u64>| {
                format!("{}{:?}\n{}", dump_machine(&conv(&a.machine)), a.block, dump_subs(&a.subs))
            };
            ensure!(text(&plain) == text(&exported), "export-changes-result", "{}with export:\n{}", text(&plain), text(&exported));
            let stub = format!("apc_candidate_{}", pcs.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("_"));
            let mut files: BTreeMap<String, String> = BTreeMap::new();
            for f in std::fs::read_dir(dir.0.join("deep/er")).map_err(|e| Failure::new("export-missing", e.to_string()))? {
                let f = f.unwrap();
                files.insert(f.file_name().to_string_lossy().to_string(), std::fs::read_to_string(f.path()).unwrap());
            }
            let all = || files.keys().cloned().collect::<Vec<_>>();
            let mut numbers = BTreeSet::new();
            let mut last: Option<(usize, String)> = None;
            let mut firsts = None;
            for (name, content) in &files {
                let rest = name
                    .strip_prefix(&stub)
                    .ok_or_else(|| Failure::new("export-name", format!("{name} in {:?}", all())))?;
                if rest == "_substitutions.json" {
                    let _: Vec<(AlgebraicReference, AlgebraicExpression<$pf>)> = serde_json::from_str(content)
                        .map_err(|e| Failure::new("substitutions-unreadable", format!("{e}\n{content}")))?;
                    continue;
                }
                if rest.ends_with(".txt") {
                    continue;
                }
                let body = rest.strip_prefix('_').and_then(|r| r.strip_suffix(".json"));
                let seq = body.and_then(|b| b.split('_').next()).and_then(|n| n.parse::<usize>().ok());
                let Some(seq) = seq else {
                    return Err(Failure::new("export-name", format!("{name} in {:?}", all())));
                };
                ensure!(numbers.insert(seq), "export-name", "two files with number {seq}: {:?}", all());
                if !rest[1..].trim_end_matches(".json").contains('_') {
                    ensure!(last.is_none(), "export-name", "two final files: {:?}", all());
                    last = Some((seq, name.clone()));
                }
                if seq == 0 {
                    firsts = Some(name.clone());
                }
                if !name.contains("inliner") {
                    // every stage is a circuit or a precompile
                    let v: serde_json::Value = serde_json::from_str(content)
                        .map_err(|e| Failure::new("export-unreadable", format!("{name}: {e}")))?;
                    ensure!(v.is_object() || v.is_array(), "export-unreadable", "{name}: {content}");
                }
            }
            ensure!(numbers.iter().copied().eq(0..numbers.len()), "export-name", "numbers {numbers:?}: {:?}", all());
            ensure!(files.contains_key(&format!("{stub}_substitutions.json")), "export-missing", "{:?}", all());
            let Some((seq, last)) = last else {
                return Err(Failure::new("export-missing", format!("no final file: {:?}", all())));
            };
            ensure!(seq + 1 == numbers.len(), "export-name", "the final file is not the last one: {:?}", all());
            type Read = ApcWithBusMap<Apc<$pf, SimpleInstruction<$pf>, u8, u64>, BusMap<$bt>>;
            let read = |name: &str| -> Result<Read, Failure> {
                serde_json::from_str(&files[name])
                    .map_err(|e| Failure::new("export-unreadable", format!("{name}: {e}\n{}", files[name])))
            };
            let r = read(&last)?;
            let want = dump_machine(&conv(&exported.machine));
            ensure!(dump_machine(&r.apc.machine) == want, "export-machine", "{last} has\n{}instead of\n{want}", dump_machine(&r.apc.machine));
            ensure_eq!(dump_subs(&r.apc.subs), dump_subs(&exported.subs), "export-subs");
            ensure!(r.apc.optimistic_constraints == exported.optimistic_constraints, "export-optimistic", "{last}");
            // the instructions, as the numbers of their lookup without the program counter
            let mut at = 0;
            let ins: Vec<&SimpleInstruction<$pf>> = r.apc.block.blocks().flat_map(|b| b.instructions.iter()).collect();
            let starts: Vec<u64> = r.apc.block.blocks().map(|b| b.start_pc).collect();
            ensure_eq!(starts, case.blocks.iter().map(|b| b[0].0).collect::<Vec<_>>(), "export-blocks");
            for (_, i) in case.blocks.concat() {
                let row: Vec<String> = std::iter::once(i.op as u64)
                    .chain(i.args)
                    .map(|x| <$pf>::from(x % <$pf>::modulus().try_into_u64().unwrap()).to_string())
                    .collect();
                ensure!(at < ins.len() && ins[at].to_string() == row.join(", "), "export-instruction", "instruction {at}: {row:?}");
                at += 1;
            }
            ensure_eq!(at, ins.len(), "export-instruction");
            let types: BTreeMap<u64, String> =
                r.bus_map.all_types_by_id().iter().map(|(k, v)| (*k, v.to_string())).collect();
            let expected: BTreeMap<u64, String> =
                $map.all_types_by_id().iter().map(|(k, v)| (*k, v.to_string())).collect();
            ensure_eq!(types, expected, "export-buses");
            let txt = format!("{}.txt", last.trim_end_matches(".json"));
            ensure!(
                files.get(&txt) == Some(&conv(&exported.machine).render(&$map)),
                "export-text",
                "{txt}: {:?}",
                files.get(&txt)
            );
            // the unoptimised circuit is the block
            let firsts = firsts.unwrap();
            ensure!(firsts.ends_with("_000_unopt.json"), "export-name", "{:?}", all());
            let u = read(&firsts)?;
            let w: BTreeMap<u64, $pf> = witness(g, u.apc.machine.main_columns().map(|c| c.id));
            let val = |i: u64| w[&i];
            let row = |id: u64, m: $pf, args: Vec<$pf>| {
                let args: Vec<String> = args.iter().map(|a| a.to_string()).collect();
                format!("{id} {m} {}", args.join(" "))
            };
            let mut got: Vec<String> = u
                .apc
                .machine
                .bus_interactions
                .iter()
                .map(|b| row(b.id, ev(&b.mult, &val), b.args.iter().map(|a| ev(a, &val)).collect()))
                .collect();
            let own = |e: &Ex<$pf>| e.eval(&|v: Var| val(v.0 as u64));
            let mut want: Vec<String> = case
                .sys
                .bus
                .iter()
                .map(|b| {
                    let id = own(&b.id).to_integer().try_into_u64().unwrap();
                    row(id, own(&b.mult), b.args.iter().map(own).collect())
                })
                .collect();
            got.sort();
            want.sort();
            ensure_eq!(got, want, "unopt-interactions");
            g.label(match number {
                1 => "level-1",
                2 => "level-2",
                _ => "level-3",
            });

            // round trips of the precompile
            let mut apc = exported;
            apc.optimistic_constraints = gen_optimistic(g, len);
            let f = *g.pick(&FORMATS);
            let back: Apc<$f, StepIns<$step>, u8, u64> = through(f, &apc)?;
            ensure!(text(&back) == text(&apc), "apc-changed", "{f:?}: {}became\n{}", text(&apc), text(&back));
            ensure!(back.optimistic_constraints == apc.optimistic_constraints, "apc-optimistic", "{f:?}: {:?}", apc.optimistic_constraints);
            let powdr = quiet(|| convert_apc_field_type(apc.clone(), &$back))?;
            ensure!(
                dump_machine(&powdr.machine) == dump_machine(&conv(&apc.machine))
                    && dump_subs(&powdr.subs) == dump_subs(&apc.subs)
                    && format!("{:?}", powdr.block) == format!("{:?}", apc.block)
                    && powdr.optimistic_constraints == apc.optimistic_constraints,
                "apc-conversion",
                "{}",
                text(&apc)
            );
            let _ = dump_apc(&powdr);
            // together with the map of buses, and with statistics
            let pair = ApcWithBusMap { apc: &apc, bus_map: $map };
            let back: ApcWithBusMap<Apc<$f, StepIns<$step>, u8, u64>, BusMap<$bt>> = through(f, &pair)?;
            ensure!(
                text(&back.apc) == text(&apc) && back.apc.optimistic_constraints == apc.optimistic_constraints,
                "apc-with-buses-changed",
                "{f:?}: {}became\n{}",
                text(&apc),
                text(&back.apc)
            );
            let s = |g: &mut Gen| AirStats { main_columns: g.usize(1000), constraints: g.usize(1000), bus_interactions: g.usize(1000) };
            let er = EvaluationResult { before: s(g), after: s(g) };
            let ws = ApcWithStats::new(Arc::new(apc.clone()), gen_id(g), er);
            let back: ApcWithStats<$f, StepIns<$step>, u8, u64, u64> = through(f, &ws)?;
            ensure!(
                text(back.apc()) == text(&apc)
                    && back.apc().optimistic_constraints == apc.optimistic_constraints
                    && back.stats() == ws.stats()
                    && back.evaluation_result().before == er.before
                    && back.evaluation_result().after == er.after,
                "apc-with-stats-changed",
                "{f:?}: {}became\n{}",
                text(&apc),
                text(back.apc())
            );
            if !apc.machine.constraints.is_empty() && !apc.machine.derived_columns.is_empty() {
                g.nontrivial();
            }
            Ok(())
        }
    };
}

fn baby(x: BabyBearField) -> Baby {
    Baby(x.to_integer().try_into_u32().unwrap())
}
fn unbaby(x: Baby) -> BabyBearField {
    BabyBearField::from(x.0 as u64)
}
fn same<T>(x: T) -> T {
    x
}

apc_case!(
    apc_tiny,
    TinyAdapter<61>,
    Fp<61>,
    Fp<61>,
    1,
    String,
    same,
    same,
    |k: &Kit| powdr_verif_harness::model::TinyBuses::new(k.bw, true),
    tiny_bus_map()
);
apc_case!(
    apc_open,
    BabyAdapter,
    BabyBearField,
    Baby,
    4,
    powdr_openvm_bus_interaction_handler::bus_map::OpenVmBusType,
    baby,
    unbaby,
    |_: &Kit| OpenVmBusInteractionHandler::<BabyBearField>::default(),
    baby_bus_map()
);

fn apc(g: &mut Gen) -> CaseResult {
    let len = g.range(1, 5);
    match g.usize(3) {
        0 => apc_tiny(g, Kit::tiny(2), len, 16),
        1 => apc_open(g, Kit::openvm(1), len, 24),
        _ => apc_open(g, Kit::openvm(4), len, 40),
    }
}

fn main() {
    run(vec![Property {
        id: "C26",
        rule: "an expression of more than three nodes, a circuit with constraints and interactions, or a precompile with derived columns",
        assumptions: &[
            "nesting depth of expressions below the limit of the JSON reader (128)",
            "printed expressions: distinct identifiers as column names",
        ],
        subs: vec![
            Sub { name: "serde", f: serde_any, quick: 400_000, thorough: 20_000_000 },
            Sub { name: "print", f: print_any, quick: 400_000, thorough: 20_000_000 },
            Sub { name: "convert", f: convert_any, quick: 200_000, thorough: 10_000_000 },
            Sub { name: "profile", f: profile, quick: 200_000, thorough: 10_000_000 },
            Sub { name: "apc", f: apc, quick: 6_000, thorough: 300_000 },
        ],
    }]);
}
