//! Generator of instruction-like circuits over the table buses, with an honest witness; and the
//! comparison of an original with a transformed system (completeness and soundness).
use crate::engine::{CaseResult, Failure, Gen};
use crate::model::*;
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::memory_optimizer::{
    MemoryBusInteraction, MemoryBusInteractionConversionError, MemoryOp,
};
use powdr_autoprecompiles::range_constraint_optimizer::{
    MakeRangeConstraintsError, RangeConstraintHandler, RangeConstraints,
};
use powdr_autoprecompiles::symbolic_machine::{
    SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine,
};
use powdr_constraint_solver::constraint_system::{
    BusInteraction, ComputationMethod, ConstraintSystem,
};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_expression::{
    AlgebraicBinaryOperation, AlgebraicBinaryOperator, AlgebraicUnaryOperation,
    AlgebraicUnaryOperator,
};
use powdr_autoprecompiles::DegreeBound;
use powdr_number::{FieldElement, LargeInt};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;
use std::hash::Hash;
use std::sync::Arc;

/// Bus id of the PC lookup: payloads are always constants here.
pub const PC: u64 = 7;

impl<T: FieldElement> IsBusStateful<T> for TinyBuses<T> {
    fn is_stateful(&self, bus_id: T) -> bool {
        BusSem::stateful(self, bus_id)
    }
}

impl<T: FieldElement> RangeConstraintHandler<T> for TinyBuses<T> {
    fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        bi: &BusInteraction<GroupedExpression<T, V>>,
    ) -> Option<RangeConstraints<T, V>> {
        let id = bi.bus_id.try_to_number()?.to_integer().try_into_u64()?;
        let byte = RangeConstraint::from_mask((1u64 << self.bw) - 1);
        let num = |i: usize| {
            bi.payload[i]
                .try_to_number()
                .and_then(|n| n.to_integer().try_into_u64())
        };
        match id {
            RANGE => Some(vec![(bi.payload[0].clone(), byte)]),
            VARRANGE => {
                let bits = num(1)?;
                (bits <= Self::max_bits(self.bw)).then(|| {
                    vec![(
                        bi.payload[0].clone(),
                        RangeConstraint::from_mask((1u64 << bits) - 1),
                    )]
                })
            }
            BITWISE if num(2) == Some(0) && num(3) == Some(0) => Some(vec![
                (bi.payload[0].clone(), byte),
                (bi.payload[1].clone(), byte),
            ]),
            TUPLE => Some(vec![
                (bi.payload[0].clone(), byte),
                (bi.payload[1].clone(), RangeConstraint::from_mask(1u64)),
            ]),
            _ => None,
        }
    }

    fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        rcs: RangeConstraints<T, V>,
    ) -> Result<Vec<BusInteraction<GroupedExpression<T, V>>>, MakeRangeConstraintsError> {
        let n = |x: u64| GroupedExpression::from_number(T::from(x));
        let mut out = vec![];
        let mut pending: Option<GroupedExpression<T, V>> = None;
        for (e, rc) in rcs {
            let bits = (0..=Self::max_bits(self.bw))
                .find(|b| rc == RangeConstraint::from_mask((1u64 << b) - 1))
                .ok_or_else(|| MakeRangeConstraintsError("not a bit range".into()))?;
            let mk = |bus: u64, payload| BusInteraction {
                bus_id: n(bus),
                multiplicity: n(1),
                payload,
            };
            if bits == self.bw as u64 {
                match pending.take() {
                    None => pending = Some(e),
                    Some(o) => out.push(mk(BITWISE, vec![o, e, n(0), n(0)])),
                }
            } else {
                out.push(mk(VARRANGE, vec![e, n(bits)]));
            }
        }
        if let Some(o) = pending {
            out.push(BusInteraction {
                bus_id: n(RANGE),
                multiplicity: n(1),
                payload: vec![o],
            });
        }
        Ok(out)
    }
}

/// Memory interactions `[address space, pointer, data.., timestamp]`.
pub struct TinyMem<T: FieldElement, V> {
    op: MemoryOp,
    addr: Vec<GroupedExpression<T, V>>,
    data: Vec<GroupedExpression<T, V>>,
    ts: Vec<GroupedExpression<T, V>>,
}

impl<T: FieldElement, V: Ord + Clone + Eq + Hash> MemoryBusInteraction<T, V> for TinyMem<T, V> {
    type Address = Vec<GroupedExpression<T, V>>;
    fn try_from_bus_interaction(
        bi: &BusInteraction<GroupedExpression<T, V>>,
        memory_bus_id: u64,
    ) -> Result<Option<Self>, MemoryBusInteractionConversionError> {
        match bi.bus_id.try_to_number() {
            None => return Err(MemoryBusInteractionConversionError),
            Some(id) if id == T::from(memory_bus_id) => {}
            Some(_) => return Ok(None),
        }
        let op = match bi.multiplicity.try_to_number() {
            Some(m) if m == T::one() => MemoryOp::SetNew,
            Some(m) if m == -T::one() => MemoryOp::GetPrevious,
            _ => return Err(MemoryBusInteractionConversionError),
        };
        let n = bi.payload.len();
        Ok(Some(TinyMem {
            op,
            addr: bi.payload[..2].to_vec(),
            data: bi.payload[2..n - 1].to_vec(),
            ts: vec![bi.payload[n - 1].clone()],
        }))
    }
    fn addr(&self) -> Self::Address {
        self.addr.clone()
    }
    fn data(&self) -> &[GroupedExpression<T, V>] {
        &self.data
    }
    fn timestamp_limbs(&self) -> &[GroupedExpression<T, V>] {
        &self.ts
    }
    fn op(&self) -> MemoryOp {
        self.op
    }
}

// ---------------------------------------------------------------------------------------------
// Conversion

pub fn reference(v: Var) -> AlgebraicReference {
    AlgebraicReference {
        name: Arc::new(format!("{v}")),
        id: v.0 as u64,
    }
}

pub fn to_alg<T: FieldElement>(e: &Ex<T>) -> AlgebraicExpression<T> {
    match e {
        Ex::C(c) => AlgebraicExpression::Number(*c),
        Ex::V(v) => AlgebraicExpression::Reference(reference(*v)),
        Ex::Add(a, b) => to_alg(a) + to_alg(b),
        Ex::Sub(a, b) => to_alg(a) - to_alg(b),
        Ex::Mul(a, b) => to_alg(a) * to_alg(b),
        Ex::Neg(a) => -to_alg(a),
    }
}

/// Own reading of powdr's expression tree.
pub fn from_alg<T: FieldElement>(e: &AlgebraicExpression<T>) -> Ex<T> {
    match e {
        AlgebraicExpression::Number(n) => Ex::C(*n),
        AlgebraicExpression::Reference(r) => Ex::V(Var(r.id as u32)),
        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let (l, r) = (from_alg(left), from_alg(right));
            match op {
                AlgebraicBinaryOperator::Add => l + r,
                AlgebraicBinaryOperator::Sub => l - r,
                AlgebraicBinaryOperator::Mul => l * r,
            }
        }
        AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation { op, expr }) => match op {
            AlgebraicUnaryOperator::Minus => -from_alg(expr),
        },
    }
}

pub fn to_machine<T: FieldElement>(s: &Sys<T>) -> SymbolicMachine<T> {
    SymbolicMachine {
        constraints: s
            .alg
            .iter()
            .map(|e| SymbolicConstraint { expr: to_alg(e) })
            .collect(),
        bus_interactions: s
            .bus
            .iter()
            .map(|b| SymbolicBusInteraction {
                id: match &b.id {
                    Ex::C(c) => c.to_integer().try_into_u64().unwrap(),
                    _ => panic!(),
                },
                mult: to_alg(&b.mult),
                args: b.args.iter().map(to_alg).collect(),
            })
            .collect(),
        derived_columns: vec![],
    }
}

pub fn from_machine<T: FieldElement>(m: &SymbolicMachine<T>) -> Sys<T> {
    Sys {
        alg: m.constraints.iter().map(|c| from_alg(&c.expr)).collect(),
        bus: m
            .bus_interactions
            .iter()
            .map(|b| Bus {
                id: Ex::c(b.id),
                mult: from_alg(&b.mult),
                args: b.args.iter().map(from_alg).collect(),
            })
            .collect(),
    }
}

pub fn from_ge<T: FieldElement>(e: &GroupedExpression<T, Var>) -> Ex<T> {
    let mut r = Ex::C(*e.constant_offset());
    for (v, c) in e.linear_components() {
        r = r + Ex::C(*c) * Ex::V(*v);
    }
    for (a, b) in e.quadratic_components() {
        r = r + from_ge(a) * from_ge(b);
    }
    r
}

#[derive(Clone, Debug)]
pub enum Method<T> {
    Const(T),
    Quot(Ex<T>, Ex<T>),
}

/// A transformed system in the harness' terms.
#[derive(Clone, Debug)]
pub struct Trans<T> {
    pub sys: Sys<T>,
    pub derived: Vec<(Var, Method<T>)>,
}

impl<T: FieldElement> Trans<T> {
    pub fn of_machine(m: &SymbolicMachine<T>) -> Self {
        Trans {
            sys: from_machine(m),
            derived: m
                .derived_columns
                .iter()
                .map(|d| {
                    let meth = match &d.computation_method {
                        ComputationMethod::Constant(c) => Method::Const(*c),
                        ComputationMethod::QuotientOrZero(a, b) => {
                            Method::Quot(from_alg(a), from_alg(b))
                        }
                    };
                    (Var(d.variable.id as u32), meth)
                })
                .collect(),
        }
    }
    pub fn of_cs(m: &ConstraintSystem<T, Var>) -> Self {
        Trans {
            sys: Sys {
                alg: m
                    .algebraic_constraints
                    .iter()
                    .map(|c| from_ge(&c.expression))
                    .collect(),
                bus: m
                    .bus_interactions
                    .iter()
                    .map(|b| Bus {
                        id: from_ge(&b.bus_id),
                        mult: from_ge(&b.multiplicity),
                        args: b.payload.iter().map(from_ge).collect(),
                    })
                    .collect(),
            },
            derived: m
                .derived_variables
                .iter()
                .map(|d| {
                    let meth = match &d.computation_method {
                        ComputationMethod::Constant(c) => Method::Const(*c),
                        ComputationMethod::QuotientOrZero(a, b) => {
                            Method::Quot(from_ge(a), from_ge(b))
                        }
                    };
                    (d.variable, meth)
                })
                .collect(),
        }
    }
}

impl<T: FieldElement> Display for Trans<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.sys)?;
        for (v, m) in &self.derived {
            match m {
                Method::Const(c) => writeln!(f, "  {v} := {c}")?,
                Method::Quot(a, b) => writeln!(f, "  {v} := {a} / {b} or 0")?,
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Honest executions

/// Is the history of stateful interactions one that the global execution and memory arguments
/// allow? Every receive has to match the latest unconsumed send (execution: of the previous
/// instruction; memory: at the same address) if there is one.
pub fn honest<T: FieldElement>(s: &CSys<T>, w: &[T]) -> bool {
    let mut last_exec: Option<Vec<T>> = None;
    let mut mem: BTreeMap<Vec<T>, Vec<T>> = BTreeMap::new();
    for b in &s.bus {
        let id = b.id.eval(w);
        let (exec, is_mem) = (id == T::from(EXEC), id == T::from(MEM));
        if !exec && !is_mem {
            continue;
        }
        let m = b.mult.eval(w);
        if m == T::zero() {
            continue;
        }
        let p: Vec<T> = b.args.iter().map(|a| a.eval(w)).collect();
        let recv = m == -T::one();
        if !recv && m != T::one() {
            return false;
        }
        if exec {
            if recv {
                if let Some(l) = last_exec.take() {
                    if l != p {
                        return false;
                    }
                }
            } else {
                last_exec = Some(p);
            }
        } else {
            let (a, d) = (p[..2].to_vec(), p[2..].to_vec());
            if recv {
                if let Some(l) = mem.remove(&a) {
                    if l != d {
                        return false;
                    }
                }
            } else {
                mem.insert(a, d);
            }
        }
    }
    true
}

/// Original and transformed system over one variable index.
pub struct Pair<T> {
    pub ix: Index<Var>,
    pub orig: CSys<T>,
    pub opt: CSys<T>,
    pub opt_vars: BTreeSet<usize>,
    pub orig_vars: BTreeSet<usize>,
    derived: Vec<(usize, Option<T>, Option<(CE<T>, CE<T>)>)>,
}

fn sys_vars<T: FieldElement>(s: &Sys<T>, ix: &Index<Var>) -> BTreeSet<usize> {
    s.vars().iter().map(|v| ix.of[v]).collect()
}

impl<T: FieldElement> Pair<T> {
    pub fn new(orig: &Sys<T>, opt: &Trans<T>) -> Result<Self, Failure> {
        let mut ix = Index::new();
        let co = CSys::of_sys(orig, &mut ix);
        let n_orig = ix.vars.len();
        let cp = CSys::of_sys(&opt.sys, &mut ix);
        let opt_vars = sys_vars(&opt.sys, &ix);
        let orig_vars: BTreeSet<usize> = sys_vars(orig, &ix);
        let mut known: BTreeSet<usize> = opt_vars
            .iter()
            .copied()
            .filter(|v| *v < n_orig)
            .collect();
        let mut derived = vec![];
        for (v, m) in &opt.derived {
            let vi = ix.get(v);
            if vi < n_orig {
                return Err(Failure::new(
                    "derived-original",
                    format!("{v} is an original variable but declared as derived"),
                ));
            }
            let mut vs = BTreeSet::new();
            let d = match m {
                Method::Const(c) => (vi, Some(*c), None),
                Method::Quot(a, b) => {
                    a.vars(&mut vs);
                    b.vars(&mut vs);
                    let a = CE::of_ex(a, &mut |v| ix.get(&v));
                    let b = CE::of_ex(b, &mut |v| ix.get(&v));
                    (vi, None, Some((a, b)))
                }
            };
            for x in &vs {
                let xi = ix.get(x);
                if !known.contains(&xi) {
                    return Err(Failure::new(
                        "derived-from-missing",
                        format!("{v} is computed from {x}, which is neither in the system nor derived before:\n{opt}"),
                    ));
                }
            }
            known.insert(vi);
            derived.push(d);
        }
        for v in &opt_vars {
            if !known.contains(v) {
                return Err(Failure::new(
                    "new-var-without-method",
                    format!(
                        "{} is neither original nor derived:\n{opt}",
                        ix.vars[*v]
                    ),
                ));
            }
        }
        let n = ix.vars.len();
        let fix = |mut c: CSys<T>| {
            c.n = n;
            c
        };
        Ok(Pair {
            orig: fix(co),
            opt: fix(cp),
            ix,
            opt_vars,
            orig_vars,
            derived,
        })
    }
    /// The optimized row for an original row.
    pub fn derive(&self, w: &[T]) -> Vec<T> {
        let mut r = w.to_vec();
        r.resize(self.ix.vars.len(), T::zero());
        for (v, c, q) in &self.derived {
            r[*v] = match (c, q) {
                (Some(c), _) => *c,
                (_, Some((a, b))) => {
                    let d = b.eval(&r);
                    if d == T::zero() {
                        T::zero()
                    } else {
                        a.eval(&r) / d
                    }
                }
                _ => unreachable!(),
            };
        }
        r
    }
    pub fn show(&self, w: &[T], vars: &BTreeSet<usize>) -> String {
        vars.iter()
            .map(|v| format!("{}={}", self.ix.vars[*v], w[*v]))
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn complete_for(&self, w: &[T], sem: &impl BusSem<T>) -> CaseResult {
        let r = self.derive(w);
        if let Some(v) = self.opt.violated(&r, sem) {
            return Err(Failure::new(
                "solution-lost",
                format!(
                    "original solution {} violates {v} of the result (row {})",
                    self.show(w, &self.orig_vars),
                    self.show(&r, &self.opt_vars)
                ),
            ));
        }
        let (a, b) = (self.orig.effect(w, sem), self.opt.effect(&r, sem));
        if a != b {
            return Err(Failure::new(
                "effect-changed",
                format!(
                    "original solution {} has stateful interactions {a:?}, the result {b:?}",
                    self.show(w, &self.orig_vars),
                ),
            ));
        }
        Ok(())
    }
    /// Is there an original solution with the same effect as the given solution of the result?
    /// None: search limit reached.
    pub fn achievable(
        &self,
        s: &[T],
        p: u64,
        sem: &impl BusSem<T>,
        limit: usize,
    ) -> Option<bool> {
        let target = self.opt.effect(s, sem);
        let try_fix = |vars: &BTreeSet<usize>, max: usize| -> Option<bool> {
            let fixed: BTreeMap<usize, T> = vars.iter().map(|v| (*v, s[*v])).collect();
            let sols = self.orig.solutions_fixing(p, sem, limit, &fixed, max)?;
            Some(sols.iter().any(|w| self.orig.effect(w, sem) == target))
        };
        let surviving: BTreeSet<usize> = self
            .opt_vars
            .intersection(&self.orig_vars)
            .copied()
            .collect();
        if try_fix(&surviving, 200) == Some(true) {
            return Some(true);
        }
        if std::env::var_os("ACH").is_some() {
            eprintln!("fixing all survivors not enough: {}", self.show(s, &self.opt_vars));
        }
        // Only those in stateful interactions.
        let mut st = BTreeSet::new();
        for b in &self.opt.bus {
            let mut x = BTreeSet::new();
            b.id.vars(&mut x);
            b.mult.vars(&mut x);
            for a in &b.args {
                a.vars(&mut x);
            }
            let id = b.id.eval(s);
            if sem.stateful(id) {
                st.extend(x);
            }
        }
        let st: BTreeSet<usize> = st.intersection(&surviving).copied().collect();
        if try_fix(&st, 100_000) == Some(true) {
            return Some(true);
        }
        try_fix(&BTreeSet::new(), 1_000_000)
    }
}

// ---------------------------------------------------------------------------------------------
// Circuits

/// A lookup that is the only user of a variable, which occurs in two of its fields (so that it
/// relates the other variables).
pub fn shared_free_variable<T: FieldElement>(b: &mut Builder<T>, g: &mut Gen, bw: u32) {
    let byte = 1u64 << bw;
    let xv = gen_const(g);
    let x = b.new_var(g, xv, Kind::Free);
    let mut field = |g: &mut Gen, v: u64| {
        let c = if g.bool() { T::one() } else { nonzero(gen_const(g)) };
        let e = b.affine(g, 1) + Ex::C(c) * Ex::V(x);
        let k = b.val(&e) - T::from(v);
        e - Ex::C(k)
    };
    let (v1, v2) = (g.below(byte), g.below(byte));
    let (e1, e2) = (field(g, v1), field(g, v2));
    let rest = if g.chance(2, 3) { (0, 0) } else { (v1 ^ v2, 1) };
    b.sys.bus.push(Bus {
        id: Ex::c(BITWISE),
        mult: Ex::c(1),
        args: vec![e1, e2, Ex::c(rest.0), Ex::c(rest.1)],
    });
}

#[derive(Clone)]
pub struct Cfg {
    pub bw: u32,
    pub mem_bytes: bool,
    pub max_instr: usize,
    pub max_vars: usize,
    pub extra: usize,
    /// allow pointers that are not constant
    pub pointers: bool,
    pub max_data: usize,
}

pub struct Circuit<T> {
    pub b: Builder<T>,
    pub cfg: Cfg,
    mem: BTreeMap<(T, T), (Vec<T>, T)>,
    ts: Ex<T>,
    data: usize,
    values: Vec<Ex<T>>,
    pub ts_var: Var,
    pub mem_ops: usize,
    pub merges: usize,
}

impl<T: FieldElement> Circuit<T> {
    pub fn generate(g: &mut Gen, cfg: Cfg) -> Self {
        let mut b = Builder::new(cfg.bw, cfg.max_vars);
        // see known finding circular-range-merge of C13
        b.bits_checked = true;
        let ts0 = 8 + g.below(3);
        let ts_var = b.new_var(g, T::from(ts0), Kind::Free);
        let data = g.range(1, cfg.max_data);
        let mut c = Circuit {
            b,
            cfg: cfg.clone(),
            mem: BTreeMap::new(),
            ts: Ex::V(ts_var),
            data,
            values: vec![],
            ts_var,
            mem_ops: 0,
            merges: 0,
        };
        let n = g.range(1, cfg.max_instr);
        let mut pc = g.below(3);
        for i in 0..n {
            if i > 0 {
                // every instruction has its own timestamp column
                let v = c.b.new_var(g, c.b.val(&c.ts), Kind::Free);
                c.ts = Ex::V(v);
            }
            let last = i + 1 == n;
            pc = c.instruction(g, pc, last);
        }
        let extra = g.usize(cfg.extra + 1);
        for _ in 0..extra {
            if g.chance(1, 3) {
                c.special(g);
            } else {
                c.b.add_constraint(g);
            }
        }
        if g.chance(1, 4) {
            let mut a = std::mem::take(&mut c.b.sys.alg);
            g.shuffle(&mut a);
            c.b.sys.alg = a;
        }
        c
    }

    fn bus(&mut self, id: u64, mult: Ex<T>, args: Vec<Ex<T>>) {
        self.b.sys.bus.push(Bus {
            id: Ex::c(id),
            mult,
            args,
        });
    }

    fn instruction(&mut self, g: &mut Gen, pc: u64, last: bool) -> u64 {
        if g.chance(1, 3) {
            let c = g.below(4);
            self.bus(PC, Ex::c(1), vec![Ex::c(pc), Ex::c(c), Ex::c(0)]);
        }
        self.bus(EXEC, -Ex::c(1), vec![Ex::c(pc), self.ts.clone()]);
        let mut vals: Vec<Ex<T>> = vec![];
        let mut k = 0u64;
        let start = self.ts.clone();
        let reads = g.range(0, 2);
        for _ in 0..reads {
            let (a, p) = self.address(g, &vals);
            let v = self.access(g, a, p, k, &start, None);
            vals.extend(v);
            k += 1;
        }
        for _ in 0..g.usize(2) {
            self.b.add_constraint(g);
        }
        let writes = g.weighted(&[2, 6, 1]);
        for _ in 0..writes {
            let (a, p) = self.address(g, &vals);
            let mut new = vec![];
            for _ in 0..self.data {
                new.push(self.result(g, &vals));
            }
            self.access(g, a, p, k, &start, Some(new));
            k += 1;
        }
        self.values.extend(vals.iter().cloned());
        self.ts = self.b_ts(&start, k.max(1));
        let next = pc + 1;
        let target = if last && g.chance(1, 3) {
            // branch
            let f = match g.usize(2) {
                0 if !vals.is_empty() => self.is_zero(g, vals[0].clone()),
                _ => {
                    let v = self.b.bit(g);
                    self.b.constrain_bit(g, v);
                    Ex::V(v)
                }
            };
            Ex::c(next) + f * Ex::c(1 + g.below(2))
        } else {
            Ex::c(next)
        };
        self.bus(EXEC, Ex::c(1), vec![target, self.ts.clone()]);
        next
    }

    /// Shapes the optimizer has dedicated code for.
    fn special(&mut self, g: &mut Gen) {
        if self.b.kinds.len() > self.b.max_vars + 6 {
            return;
        }
        let byte = 1u64 << self.cfg.bw;
        let int = |x: T| x.to_integer().try_into_u64().unwrap();
        match g.usize(6) {
            5 => shared_free_variable(&mut self.b, g, self.cfg.bw),
            0 => {
                // a lookup is the only user of a free variable
                let a = self.b.affine(g, 1);
                let xv = gen_const(g);
                let x = self.b.new_var(g, xv, Kind::Free);
                let e = match g.usize(3) {
                    0 => a * Ex::V(x),
                    1 => a + Ex::V(x),
                    _ => a + Ex::C(nonzero(gen_const(g))) * Ex::V(x),
                };
                let v = int(self.b.val(&e));
                let k = v - g.below(byte.min(v + 1));
                let e = e - Ex::c(k);
                let v = v - k;
                match g.usize(4) {
                    0 => {
                        let y = g.below(byte);
                        self.bus(
                            BITWISE,
                            Ex::c(1),
                            vec![e, Ex::c(y), Ex::c(v ^ y), Ex::c(1)],
                        )
                    }
                    1 => self.bus(FREE, Ex::c(1), vec![e]),
                    2 => {
                        let f = self.b.bit(g);
                        self.bus(RANGE, Ex::V(f), vec![e])
                    }
                    _ => self.b.range_check(g, e),
                }
            }
            1 => {
                // a constraint is the only user of a free variable
                let a = self.b.affine(g, 1);
                let r = self.b.affine(g, 2);
                let xv = gen_const(g);
                let x = self.b.new_var(g, xv, Kind::Free);
                let e = match g.usize(4) {
                    0 => a * Ex::V(x) + r,
                    1 => Ex::C(nonzero(gen_const(g))) * Ex::V(x) + a * r,
                    2 => a * (Ex::V(x) + r),
                    _ => (a + Ex::V(x)) * (r + Ex::V(x)),
                };
                let e = self.b.zeroed(e);
                self.b.assert_zero(e);
            }
            2 => {
                // is-zero gadgets for the same operand
                let ops: Vec<Ex<T>> = self.values.clone();
                if ops.is_empty() {
                    return;
                }
                let a = ops[g.usize(ops.len())].clone();
                let f1 = self.is_zero(g, a.clone());
                if g.bool() {
                    let f2 = self.is_zero(g, a);
                    if g.bool() {
                        self.b.assert_zero(f1 - f2);
                    }
                }
            }
            3 => {
                // disconnected part
                let v = self.b.small(g);
                let e = Ex::V(v) * Ex::V(v);
                let e = self.b.zeroed(e);
                self.b.assert_zero(e);
            }
            _ => {
                // the same interaction twice
                let st: Vec<usize> = (0..self.b.sys.bus.len())
                    .filter(|i| match &self.b.sys.bus[*i].id {
                        Ex::C(c) => ![EXEC, MEM, PC].iter().any(|b| *c == T::from(*b)),
                        _ => false,
                    })
                    .collect();
                if !st.is_empty() {
                    let mut b = self.b.sys.bus[st[g.usize(st.len())]].clone();
                    // possibly under a condition
                    if g.chance(1, 3) && matches!(b.mult, Ex::C(_)) {
                        let f = self.b.bit(g);
                        self.b.constrain_bit(g, f);
                        b.mult = Ex::V(f);
                    }
                    if g.bool() {
                        self.b.sys.bus.push(b);
                    } else {
                        self.b.sys.bus.insert(0, b);
                    }
                }
            }
        }
    }

    fn b_ts(&self, start: &Ex<T>, k: u64) -> Ex<T> {
        if k == 0 {
            start.clone()
        } else {
            start.clone() + Ex::c(k)
        }
    }

    fn address(&mut self, g: &mut Gen, vals: &[Ex<T>]) -> (u64, Ex<T>) {
        if !self.cfg.pointers || g.chance(3, 5) {
            return (1, Ex::c(g.below(3)));
        }
        let all: Vec<Ex<T>> = self
            .values
            .iter()
            .chain(vals.iter())
            .cloned()
            .collect();
        if all.is_empty() || g.chance(1, 6) {
            return (2, Ex::c(g.below(4)));
        }
        let base = all[g.usize(all.len())].clone();
        let off = g.below(3);
        let e = if off == 0 { base } else { base + Ex::c(off) };
        if g.chance(1, 3) && !self.b.full() {
            // pointer column
            let v = self.b.new_var(g, self.b.val(&e), Kind::Free);
            self.b.assert_zero(Ex::V(v) - e);
            return (2, Ex::V(v));
        }
        (2, e)
    }

    /// One memory access: receive the previous content, send the new one.
    fn access(
        &mut self,
        g: &mut Gen,
        a: u64,
        ptr: Ex<T>,
        k: u64,
        start: &Ex<T>,
        new: Option<Vec<Ex<T>>>,
    ) -> Vec<Ex<T>> {
        self.mem_ops += 1;
        let key = (T::from(a), self.b.val(&ptr));
        let now = self.b_ts(start, k);
        let now_v = self.b.val(&now);
        let conditional = g.chance(1, 12);
        let flag = if conditional {
            let v = self.b.bit(g);
            self.b.constrain_bit(g, v);
            Some(v)
        } else {
            None
        };
        let active = flag.is_none_or(|f| self.b.w[&f] == T::one());
        let max_gap = 1u64 << (self.cfg.bw + 1);
        let (d, t) = match self.mem.get(&key) {
            Some(x) => x.clone(),
            None => {
                let d = (0..self.data)
                    .map(|_| T::from(g.below(1 << self.cfg.bw)))
                    .collect();
                (d, now_v - T::one() - T::from(g.below(max_gap.min(8))))
            }
        };
        let dv: Vec<Var> = d
            .iter()
            .map(|x| self.b.new_var(g, *x, Kind::Small))
            .collect();
        let tv = self.b.new_var(g, t, Kind::Free);
        let mult = |neg: bool| -> Ex<T> {
            match (flag, neg) {
                (None, true) => -Ex::c(1),
                (None, false) => Ex::c(1),
                (Some(f), true) => -Ex::V(f),
                (Some(f), false) => Ex::V(f),
            }
        };
        let mut args = vec![Ex::c(a), ptr.clone()];
        args.extend(dv.iter().map(|v| Ex::V(*v)));
        args.push(Ex::V(tv));
        self.bus(MEM, mult(true), args);
        if !self.cfg.mem_bytes || g.chance(1, 4) {
            for v in &dv {
                if !self.cfg.mem_bytes && g.chance(1, 5) {
                    continue;
                }
                self.b.range_check(g, Ex::V(*v));
            }
        }
        // timestamp check, if the gap fits (it does not if the access is inactive)
        let gap = now.clone() - Ex::V(tv) - Ex::c(1);
        let gv = self.b.val(&gap).to_integer().try_into_u64().unwrap();
        if gv < max_gap && g.chance(5, 6) {
            if g.chance(1, 3) && gv < 1 << self.cfg.bw && !self.b.full() {
                // via a limb column
                let lo = self.b.new_var(g, T::from(gv), Kind::Small);
                self.b.range_check(g, Ex::V(lo));
                self.b.assert_zero(gap - Ex::V(lo));
            } else {
                self.bus(
                    VARRANGE,
                    Ex::c(1),
                    vec![gap, Ex::c(self.cfg.bw as u64 + 1)],
                );
            }
        }
        let read: Vec<Ex<T>> = dv.iter().map(|v| Ex::V(*v)).collect();
        let out = new.unwrap_or_else(|| read.clone());
        let mut args = vec![Ex::c(a), ptr];
        args.extend(out.iter().cloned());
        args.push(now);
        self.bus(MEM, mult(false), args);
        if active {
            let vals: Vec<T> = out.iter().map(|e| self.b.val(e)).collect();
            if self.mem.insert(key, (vals, now_v)).is_some() {
                self.merges += 1;
            }
        }
        read
    }

    fn is_zero(&mut self, g: &mut Gen, a: Ex<T>) -> Ex<T> {
        let av = self.b.val(&a);
        let z = av == T::zero();
        let eq = self.b.new_var(g, T::from(z), Kind::Bit);
        let inv_v = if z { T::zero() } else { T::one() / av };
        let inv = self.b.new_var(g, inv_v, Kind::Free);
        self.b.constrain_bit(g, eq);
        self.b.assert_zero(Ex::V(eq) * a.clone());
        self.b
            .assert_zero(a * Ex::V(inv) + Ex::V(eq) - Ex::c(1));
        Ex::V(eq)
    }

    /// A new data limb (always a byte, and constrained to be one).
    fn result(&mut self, g: &mut Gen, vals: &[Ex<T>]) -> Ex<T> {
        let byte = 1u64 << self.cfg.bw;
        let pool: Vec<Ex<T>> = if vals.is_empty() || g.chance(1, 5) {
            self.values.iter().chain(vals).cloned().collect()
        } else {
            vals.to_vec()
        };
        if pool.is_empty() {
            return match g.usize(2) {
                0 => Ex::c(g.below(byte)),
                _ => {
                    let x = g.below(byte);
                    let v = self.b.new_var(g, T::from(x), Kind::Small);
                    self.b.range_check(g, Ex::V(v));
                    Ex::V(v)
                }
            };
        }
        let x = pool[g.usize(pool.len())].clone();
        let y = if g.chance(1, 3) {
            Ex::c(g.below(byte))
        } else {
            pool[g.usize(pool.len())].clone()
        };
        let int = |s: &Self, e: &Ex<T>| s.b.val(e).to_integer().try_into_u64().unwrap();
        let (xv, yv) = (int(self, &x), int(self, &y));
        match g.weighted(&[2, 1, 4, 4, 3, 2, 3, 2, 2, 3, 2]) {
            0 => x,
            1 => Ex::c(g.below(byte)),
            2 => {
                // addition modulo the byte size
                let s = xv + yv;
                let z = self.b.new_var(g, T::from(s % byte), Kind::Small);
                self.b.range_check(g, Ex::V(z));
                let d = x + y - Ex::V(z);
                self.b.assert_zero(d.clone() * (d - Ex::c(byte)));
                Ex::V(z)
            }
            3 => {
                let z = self.b.new_var(g, T::from(xv ^ yv), Kind::Small);
                self.bus(BITWISE, Ex::c(1), vec![x, y, Ex::V(z), Ex::c(1)]);
                Ex::V(z)
            }
            4 => {
                let f = self.b.bit(g);
                self.b.constrain_bit(g, f);
                let e = Ex::V(f) * x + (Ex::c(1) - Ex::V(f)) * y;
                if g.bool() {
                    let z = self.b.new_var(g, self.b.val(&e), Kind::Small);
                    self.b.assert_zero(Ex::V(z) - e);
                    self.b.range_check(g, Ex::V(z));
                    Ex::V(z)
                } else {
                    e
                }
            }
            5 => {
                let d = x - y;
                self.is_zero(g, d)
            }
            6 => {
                // less-than: x - y + 2^bw * lt is a byte
                let lt = xv < yv;
                let f = self.b.new_var(g, T::from(lt), Kind::Bit);
                self.b.constrain_bit(g, f);
                let e = x - y + Ex::c(byte) * Ex::V(f);
                if g.bool() {
                    let z = self.b.new_var(g, self.b.val(&e), Kind::Small);
                    self.b.assert_zero(Ex::V(z) - e);
                    self.b.range_check(g, Ex::V(z));
                } else {
                    self.b.range_check(g, e);
                }
                Ex::V(f)
            }
            7 => {
                // and, via xor: (x + y - (x ^ y)) / 2
                let z = self.b.new_var(g, T::from(xv & yv), Kind::Small);
                let e = x.clone() + y.clone() - Ex::c(2) * Ex::V(z);
                self.bus(BITWISE, Ex::c(1), vec![x, y, e, Ex::c(1)]);
                Ex::V(z)
            }
            8 => {
                // not
                let z = self.b.new_var(g, T::from(byte - 1 - xv), Kind::Small);
                self.bus(
                    BITWISE,
                    Ex::c(1),
                    vec![x, Ex::c(byte - 1), Ex::V(z), Ex::c(1)],
                );
                Ex::V(z)
            }
            9 => {
                // one-hot opcode flags, maybe with the opcode known
                let n = g.range(2, 3);
                let hot = g.usize(n);
                let known = g.chance(2, 3);
                let mut sum = Ex::c(0);
                let mut op = Ex::c(0);
                let mut flags = vec![];
                for i in 0..n {
                    let f = self.b.new_var(g, T::from(i == hot), Kind::Bit);
                    self.b.constrain_bit(g, f);
                    sum = sum + Ex::V(f);
                    op = op + Ex::c(i as u64) * Ex::V(f);
                    flags.push(f);
                }
                self.b.assert_zero(sum - Ex::c(1));
                if known {
                    self.b.assert_zero(op - Ex::c(hot as u64));
                }
                let z = self.b.new_var(
                    g,
                    T::from(match hot {
                        0 => xv,
                        1 => xv ^ yv,
                        _ => byte - 1 - xv,
                    }),
                    Kind::Small,
                );
                self.b.range_check(g, Ex::V(z));
                self.b.assert_zero(Ex::V(flags[0]) * (Ex::V(z) - x.clone()));
                self.bus(
                    BITWISE,
                    Ex::V(flags[1]),
                    vec![x.clone(), y, Ex::V(z), Ex::c(1)],
                );
                if n > 2 {
                    self.b
                        .assert_zero(Ex::V(flags[2]) * (Ex::c(byte - 1) - x - Ex::V(z)));
                }
                Ex::V(z)
            }
            _ => {
                // non-deterministic byte
                let v = g.below(byte);
                let z = self.b.new_var(g, T::from(v), Kind::Small);
                self.b.range_check(g, Ex::V(z));
                Ex::V(z)
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Shared by the checks

pub fn degree<T: FieldElement>(e: &Ex<T>) -> usize {
    match e {
        Ex::C(_) => 0,
        Ex::V(_) => 1,
        Ex::Add(a, b) | Ex::Sub(a, b) => degree(a).max(degree(b)),
        Ex::Mul(a, b) => degree(a) + degree(b),
        Ex::Neg(a) => degree(a),
    }
}

/// (max degree of constraints, max degree of bus fields)
pub fn degrees<T: FieldElement>(s: &Sys<T>) -> (usize, usize) {
    (
        s.alg.iter().map(degree).max().unwrap_or(0),
        s.bus
            .iter()
            .flat_map(|b| b.args.iter().chain([&b.mult]))
            .map(degree)
            .max()
            .unwrap_or(0),
    )
}

pub fn gen_bound<T: FieldElement>(g: &mut Gen, s: &Sys<T>) -> DegreeBound {
    let (a, b) = degrees(s);
    let bus_interactions = b.max(1) + g.usize(2);
    let identities = a.max(2).max(bus_interactions) + g.usize(3);
    DegreeBound {
        identities,
        bus_interactions,
    }
}

/// Known finding `circular-range-merge`: the constraints `x * a = 0` and `x * b = 0` have been merged
/// to `x * (a + b) = 0` although the ranges of `a` and `b` only follow from the constraints that
/// were merged. Recognised by the witness: it satisfies a product of the result because
/// summands with positive coefficients cancel each other.
pub fn is_cancelling_merge<T: FieldElement>(result: &Sys<T>, w: &impl Fn(Var) -> T) -> bool {
    use powdr_number::LargeInt;
    fn terms<T: FieldElement>(e: &Ex<T>, sign: T, out: &mut Vec<(T, Ex<T>)>) {
        match e {
            Ex::Add(a, b) => {
                terms(a, sign, out);
                terms(b, sign, out);
            }
            Ex::Sub(a, b) => {
                terms(a, sign, out);
                terms(b, -sign, out);
            }
            Ex::Neg(a) => terms(a, -sign, out),
            Ex::Mul(a, b) => match (&**a, &**b) {
                (Ex::C(c), x) | (x, Ex::C(c)) => terms(x, sign * *c, out),
                _ => out.push((sign, e.clone())),
            },
            _ => out.push((sign, e.clone())),
        }
    }
    fn factors<'a, T: FieldElement>(e: &'a Ex<T>, out: &mut Vec<&'a Ex<T>>) {
        match e {
            Ex::Mul(a, b) => {
                factors(a, out);
                factors(b, out);
            }
            Ex::Neg(a) => factors(a, out),
            _ => out.push(e),
        }
    }
    let half = T::modulus().try_into_u64().unwrap() / 2;
    result.alg.iter().any(|e| {
        let mut fs = vec![];
        factors(e, &mut fs);
        let zero: Vec<_> = fs.iter().filter(|f| f.eval(w).is_zero()).collect();
        let [f] = zero[..] else { return false };
        if fs.len() < 2 {
            return false;
        }
        let mut ts = vec![];
        terms(f, T::one(), &mut ts);
        let nonzero = ts.iter().filter(|(c, t)| !t.eval(w).is_zero() && !c.is_zero()).count();
        nonzero >= 2
            && ts.iter().all(|(c, t)| {
                !matches!(t, Ex::C(_)) && c.to_integer().try_into_u64().unwrap() <= half
            })
    })
}

pub trait ModU64: FieldElement {
    fn modulus_u64() -> u64;
}
impl<T: FieldElement> ModU64 for T {
    fn modulus_u64() -> u64 {
        use powdr_number::LargeInt;
        T::modulus().try_into_u64().unwrap()
    }
}

