//! Reference semantics of constraint systems: own expression type, evaluators, table-based buses and
//! exhaustive enumeration of all solutions over tiny fields.
use crate::engine::Gen;
use powdr_constraint_solver::bus_interaction_handler::{BusInteractionHandler, ViolatesBusRules};
use powdr_constraint_solver::constraint_system::{
    AlgebraicConstraint, BusInteraction, ComputationMethod, ConstraintSystem,
};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::{FieldElement, LargeInt};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display};
use std::hash::Hash;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, serde::Serialize)]
pub struct Var(pub u32);
impl Display for Var {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "v{}", self.0)
    }
}

/// Expression AST of the harness (the meaning the code under test has to preserve).
#[derive(Clone, Debug, PartialEq)]
pub enum Ex<T> {
    C(T),
    V(Var),
    Add(Box<Ex<T>>, Box<Ex<T>>),
    Sub(Box<Ex<T>>, Box<Ex<T>>),
    Mul(Box<Ex<T>>, Box<Ex<T>>),
    Neg(Box<Ex<T>>),
}

impl<T: FieldElement> std::ops::Add for Ex<T> {
    type Output = Ex<T>;
    fn add(self, o: Ex<T>) -> Ex<T> {
        Ex::Add(Box::new(self), Box::new(o))
    }
}
impl<T: FieldElement> std::ops::Sub for Ex<T> {
    type Output = Ex<T>;
    fn sub(self, o: Ex<T>) -> Ex<T> {
        Ex::Sub(Box::new(self), Box::new(o))
    }
}
impl<T: FieldElement> std::ops::Mul for Ex<T> {
    type Output = Ex<T>;
    fn mul(self, o: Ex<T>) -> Ex<T> {
        Ex::Mul(Box::new(self), Box::new(o))
    }
}
impl<T: FieldElement> std::ops::Neg for Ex<T> {
    type Output = Ex<T>;
    fn neg(self) -> Ex<T> {
        Ex::Neg(Box::new(self))
    }
}

impl<T: FieldElement> Display for Ex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Ex::C(c) => write!(f, "{c}"),
            Ex::V(v) => write!(f, "{v}"),
            Ex::Add(a, b) => write!(f, "({a} + {b})"),
            Ex::Sub(a, b) => write!(f, "({a} - {b})"),
            Ex::Mul(a, b) => write!(f, "({a} * {b})"),
            Ex::Neg(a) => write!(f, "-({a})"),
        }
    }
}

impl<T: FieldElement> Ex<T> {
    pub fn c(v: u64) -> Self {
        Ex::C(T::from(v))
    }
    pub fn eval(&self, w: &impl Fn(Var) -> T) -> T {
        match self {
            Ex::C(c) => *c,
            Ex::V(v) => w(*v),
            Ex::Add(a, b) => a.eval(w) + b.eval(w),
            Ex::Sub(a, b) => a.eval(w) - b.eval(w),
            Ex::Mul(a, b) => a.eval(w) * b.eval(w),
            Ex::Neg(a) => -a.eval(w),
        }
    }
    /// Built with powdr's operators.
    pub fn ge(&self) -> GroupedExpression<T, Var> {
        match self {
            Ex::C(c) => GroupedExpression::from_number(*c),
            Ex::V(v) => GroupedExpression::from_unknown_variable(*v),
            Ex::Add(a, b) => a.ge() + b.ge(),
            Ex::Sub(a, b) => a.ge() - b.ge(),
            Ex::Mul(a, b) => a.ge() * b.ge(),
            Ex::Neg(a) => -a.ge(),
        }
    }
    pub fn vars(&self, out: &mut BTreeSet<Var>) {
        match self {
            Ex::C(_) => {}
            Ex::V(v) => {
                out.insert(*v);
            }
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => {
                a.vars(out);
                b.vars(out);
            }
            Ex::Neg(a) => a.vars(out),
        }
    }
}

pub fn eval_ge<T: FieldElement, V: Ord + Clone + Eq>(
    e: &GroupedExpression<T, V>,
    w: &impl Fn(&V) -> T,
) -> T {
    let mut s = *e.constant_offset();
    for (v, c) in e.linear_components() {
        s += *c * w(v);
    }
    for (l, r) in e.quadratic_components() {
        s += eval_ge(l, w) * eval_ge(r, w);
    }
    s
}

// ---------------------------------------------------------------------------------------------
// Compiled expressions (variable indices)

#[derive(Clone, Debug)]
pub struct CE<T> {
    pub q: Vec<(CE<T>, CE<T>)>,
    pub l: Vec<(usize, T)>,
    pub c: T,
}
impl<T: FieldElement> CE<T> {
    pub fn of<V: Ord + Clone + Eq>(
        e: &GroupedExpression<T, V>,
        idx: &mut impl FnMut(&V) -> usize,
    ) -> Self {
        CE {
            q: e.quadratic_components()
                .iter()
                .map(|(l, r)| (CE::of(l, idx), CE::of(r, idx)))
                .collect(),
            l: e.linear_components().map(|(v, c)| (idx(v), *c)).collect(),
            c: *e.constant_offset(),
        }
    }
    /// From the harness AST, by own polynomial grouping (independent of powdr's operators).
    pub fn of_ex(e: &Ex<T>, idx: &mut impl FnMut(Var) -> usize) -> Self {
        let zero = || CE {
            q: vec![],
            l: vec![],
            c: T::zero(),
        };
        match e {
            Ex::C(c) => CE { c: *c, ..zero() },
            Ex::V(v) => CE {
                l: vec![(idx(*v), T::one())],
                ..zero()
            },
            Ex::Add(a, b) => {
                let (mut a, b) = (CE::of_ex(a, idx), CE::of_ex(b, idx));
                a.q.extend(b.q);
                a.l.extend(b.l);
                a.c += b.c;
                a
            }
            Ex::Sub(a, b) => {
                let nb = CE::of_ex(b, idx).scale(-T::one());
                let mut a = CE::of_ex(a, idx);
                a.q.extend(nb.q);
                a.l.extend(nb.l);
                a.c += nb.c;
                a
            }
            Ex::Mul(a, b) => CE {
                q: vec![(CE::of_ex(a, idx), CE::of_ex(b, idx))],
                ..zero()
            },
            Ex::Neg(a) => CE::of_ex(a, idx).scale(-T::one()),
        }
    }
    fn scale(mut self, k: T) -> Self {
        for (l, _) in &mut self.q {
            *l = l.clone().scale(k);
        }
        for (_, c) in &mut self.l {
            *c *= k;
        }
        self.c *= k;
        self
    }
    #[inline]
    pub fn eval(&self, w: &[T]) -> T {
        let mut s = self.c;
        for (v, c) in &self.l {
            s += *c * w[*v];
        }
        for (l, r) in &self.q {
            s += l.eval(w) * r.eval(w);
        }
        s
    }
    pub fn vars(&self, out: &mut BTreeSet<usize>) {
        out.extend(self.l.iter().map(|(v, _)| *v));
        for (l, r) in &self.q {
            l.vars(out);
            r.vars(out);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Table buses

pub const EXEC: u64 = 0;
pub const MEM: u64 = 1;
pub const RANGE: u64 = 2;
pub const VARRANGE: u64 = 3;
pub const BITWISE: u64 = 4;
pub const TUPLE: u64 = 5;
/// Stateless, but without any rule (like OpenVM's PC lookup).
pub const FREE: u64 = 6;

/// Semantics of buses: which concrete interactions are allowed.
pub trait BusSem<T: FieldElement> {
    /// Is this interaction (with non-zero multiplicity) allowed?
    fn allowed(&self, bus: T, mult: T, payload: &[T]) -> bool;
    fn stateful(&self, bus: T) -> bool;
}

#[derive(Clone)]
pub struct TinyBuses<T> {
    /// bits of a "byte"
    pub bw: u32,
    /// whether the handler narrows as far as possible.
    pub precise: bool,
    /// data received from memory is known to be bytes
    pub mem_bytes: bool,
    tables: Arc<BTreeMap<u64, Vec<Vec<T>>>>,
}

impl<T: FieldElement> TinyBuses<T> {
    pub fn new(bw: u32, precise: bool) -> Self {
        let b = 1u64 << bw;
        let mut t: BTreeMap<u64, Vec<Vec<T>>> = BTreeMap::new();
        let f = |x: u64| T::from(x);
        t.insert(RANGE, (0..b).map(|x| vec![f(x)]).collect());
        t.insert(
            VARRANGE,
            (0..=Self::max_bits(bw))
                .flat_map(|k| (0..1u64 << k).map(move |x| vec![f(x), f(k)]))
                .collect(),
        );
        let mut bit = vec![];
        for x in 0..b {
            for y in 0..b {
                bit.push(vec![f(x), f(y), f(0), f(0)]);
                bit.push(vec![f(x), f(y), f(x ^ y), f(1)]);
            }
        }
        t.insert(BITWISE, bit);
        t.insert(
            TUPLE,
            (0..b)
                .flat_map(|x| (0..2).map(move |y| vec![f(x), f(y)]))
                .collect(),
        );
        TinyBuses {
            bw,
            precise,
            mem_bytes: false,
            tables: Arc::new(t),
        }
    }
    pub fn max_bits(bw: u32) -> u64 {
        bw as u64 + 1
    }
    pub fn table(&self, bus: u64) -> Option<&Vec<Vec<T>>> {
        self.tables.get(&bus)
    }
}

impl<T: FieldElement> BusSem<T> for TinyBuses<T> {
    fn allowed(&self, bus: T, mult: T, payload: &[T]) -> bool {
        let Some(id) = bus.to_integer().try_into_u64() else {
            return true;
        };
        let b = 1u64 << self.bw;
        let v = |i: usize| payload[i].to_integer().try_into_u64().unwrap_or(u64::MAX);
        match id {
            RANGE => payload.len() == 1 && v(0) < b,
            VARRANGE => {
                payload.len() == 2 && v(1) <= Self::max_bits(self.bw) && v(0) < (1u64 << v(1))
            }
            BITWISE => {
                payload.len() == 4
                    && v(0) < b
                    && v(1) < b
                    && match v(3) {
                        0 => v(2) == 0,
                        1 => v(2) == v(0) ^ v(1),
                        _ => false,
                    }
            }
            TUPLE => payload.len() == 2 && v(0) < b && v(1) < 2,
            MEM if self.mem_bytes && mult == -T::one() => {
                (2..payload.len() - 1).all(|i| v(i) < b)
            }
            _ => true,
        }
    }
    fn stateful(&self, bus: T) -> bool {
        bus == T::from(EXEC) || bus == T::from(MEM)
    }
}

pub fn hull<T: FieldElement>(vals: &[T]) -> RangeConstraint<T> {
    let min = *vals.iter().min().unwrap();
    let max = *vals.iter().max().unwrap();
    if min == max {
        return RangeConstraint::from_value(min);
    }
    let or = vals
        .iter()
        .fold(0u64, |a, v| a | v.to_integer().try_into_u64().unwrap());
    if min == T::zero() && max.to_integer().try_into_u64().unwrap() == or {
        RangeConstraint::from_mask(or)
    } else {
        RangeConstraint::from_range(min, max)
    }
}

impl<T: FieldElement> TinyBuses<T> {
    fn process(
        &self,
        bi: &BusInteraction<RangeConstraint<T>>,
    ) -> Result<BusInteraction<RangeConstraint<T>>, ()> {
        let Some(id) = bi.bus_id.try_to_single_value() else {
            return Ok(bi.clone());
        };
        if self.mem_bytes
            && id == T::from(MEM)
            && bi.multiplicity.try_to_single_value() == Some(-T::one())
        {
            let mut r = bi.clone();
            let n = r.payload.len();
            for p in &mut r.payload[2..n - 1] {
                *p = RangeConstraint::from_mask((1u64 << self.bw) - 1);
            }
            return Ok(r);
        }
        let Some(table) = id
            .to_integer()
            .try_into_u64()
            .and_then(|id| self.tables.get(&id))
        else {
            return Ok(bi.clone());
        };
        match bi.multiplicity.try_to_single_value() {
            Some(m) if m != T::zero() => {}
            _ => return Ok(bi.clone()),
        }
        if table[0].len() != bi.payload.len() {
            return Err(());
        }
        let rows: Vec<&Vec<T>> = if self.precise {
            table
                .iter()
                .filter(|r| {
                    r.iter()
                        .zip(&bi.payload)
                        .all(|(x, rc)| rc.allows_value(*x))
                })
                .collect()
        } else {
            table.iter().collect()
        };
        if rows.is_empty() {
            return Err(());
        }
        let payload = (0..bi.payload.len())
            .map(|i| {
                let vals: Vec<T> = rows.iter().map(|r| r[i]).collect();
                hull(&vals)
            })
            .collect();
        Ok(BusInteraction {
            bus_id: bi.bus_id,
            multiplicity: bi.multiplicity,
            payload,
        })
    }
}

impl<T: FieldElement> BusInteractionHandler<T> for TinyBuses<T> {
    fn handle_bus_interaction(
        &self,
        bi: BusInteraction<RangeConstraint<T>>,
    ) -> BusInteraction<RangeConstraint<T>> {
        self.process(&bi).unwrap_or(bi)
    }
    fn handle_bus_interaction_checked(
        &self,
        bi: BusInteraction<RangeConstraint<T>>,
    ) -> Result<BusInteraction<RangeConstraint<T>>, ViolatesBusRules> {
        let r = self.process(&bi).map_err(|_| ViolatesBusRules {})?;
        for (a, b) in bi.fields().zip(r.fields()) {
            if a.is_disjoint(b) {
                return Err(ViolatesBusRules {});
            }
        }
        Ok(r)
    }
}

// ---------------------------------------------------------------------------------------------
// Systems in the harness' own terms

#[derive(Clone, Debug)]
pub struct Bus<T> {
    pub id: Ex<T>,
    pub mult: Ex<T>,
    pub args: Vec<Ex<T>>,
}

#[derive(Clone, Debug)]
pub struct Sys<T> {
    pub alg: Vec<Ex<T>>,
    pub bus: Vec<Bus<T>>,
}
impl<T> Default for Sys<T> {
    fn default() -> Self {
        Sys {
            alg: vec![],
            bus: vec![],
        }
    }
}

impl<T: FieldElement> Display for Sys<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in &self.alg {
            writeln!(f, "  {c} = 0")?;
        }
        for b in &self.bus {
            write!(f, "  bus {} mult {} [", b.id, b.mult)?;
            for a in &b.args {
                write!(f, "{a}, ")?;
            }
            writeln!(f, "]")?;
        }
        Ok(())
    }
}

impl<T: FieldElement> Sys<T> {
    pub fn vars(&self) -> BTreeSet<Var> {
        let mut s = BTreeSet::new();
        for e in &self.alg {
            e.vars(&mut s);
        }
        for b in &self.bus {
            b.id.vars(&mut s);
            b.mult.vars(&mut s);
            for a in &b.args {
                a.vars(&mut s);
            }
        }
        s
    }
    pub fn to_powdr(&self) -> ConstraintSystem<T, Var> {
        ConstraintSystem {
            algebraic_constraints: self
                .alg
                .iter()
                .map(|e| AlgebraicConstraint::assert_zero(e.ge()))
                .collect(),
            bus_interactions: self
                .bus
                .iter()
                .map(|b| BusInteraction {
                    bus_id: b.id.ge(),
                    multiplicity: b.mult.ge(),
                    payload: b.args.iter().map(|a| a.ge()).collect(),
                })
                .collect(),
            derived_variables: vec![],
        }
    }
}

#[derive(Clone)]
pub struct CBus<T> {
    pub id: CE<T>,
    pub mult: CE<T>,
    pub args: Vec<CE<T>>,
}

/// Compiled system over variable indices 0..n.
#[derive(Clone)]
pub struct CSys<T> {
    pub n: usize,
    pub alg: Vec<CE<T>>,
    pub bus: Vec<CBus<T>>,
}

/// Maps variables to dense indices.
#[derive(Clone, Default)]
pub struct Index<V: Ord> {
    pub of: BTreeMap<V, usize>,
    pub vars: Vec<V>,
}
impl<V: Ord + Clone> Index<V> {
    pub fn new() -> Self {
        Index {
            of: BTreeMap::new(),
            vars: vec![],
        }
    }
    pub fn get(&mut self, v: &V) -> usize {
        if let Some(i) = self.of.get(v) {
            return *i;
        }
        let i = self.vars.len();
        self.of.insert(v.clone(), i);
        self.vars.push(v.clone());
        i
    }
}

impl<T: FieldElement> CSys<T> {
    pub fn of_sys(s: &Sys<T>, ix: &mut Index<Var>) -> Self {
        let mut f = |v: Var| ix.get(&v);
        let alg = s.alg.iter().map(|e| CE::of_ex(e, &mut f)).collect();
        let bus = s
            .bus
            .iter()
            .map(|b| CBus {
                id: CE::of_ex(&b.id, &mut f),
                mult: CE::of_ex(&b.mult, &mut f),
                args: b.args.iter().map(|a| CE::of_ex(a, &mut f)).collect(),
            })
            .collect();
        CSys {
            n: ix.vars.len(),
            alg,
            bus,
        }
    }
    pub fn of_powdr<V: Ord + Clone + Eq + Hash>(
        s: &ConstraintSystem<T, V>,
        ix: &mut Index<V>,
    ) -> Self {
        let mut f = |v: &V| ix.get(v);
        let alg = s
            .algebraic_constraints
            .iter()
            .map(|e| CE::of(&e.expression, &mut f))
            .collect();
        let bus = s
            .bus_interactions
            .iter()
            .map(|b| CBus {
                id: CE::of(&b.bus_id, &mut f),
                mult: CE::of(&b.multiplicity, &mut f),
                args: b.payload.iter().map(|a| CE::of(a, &mut f)).collect(),
            })
            .collect();
        CSys {
            n: ix.vars.len(),
            alg,
            bus,
        }
    }
    fn bus_ok(&self, i: usize, w: &[T], sem: &impl BusSem<T>) -> bool {
        let b = &self.bus[i];
        let mult = b.mult.eval(w);
        if mult == T::zero() {
            return true;
        }
        let args: Vec<T> = b.args.iter().map(|a| a.eval(w)).collect();
        sem.allowed(b.id.eval(w), mult, &args)
    }
    pub fn satisfied(&self, w: &[T], sem: &impl BusSem<T>) -> bool {
        self.alg.iter().all(|e| e.eval(w) == T::zero())
            && (0..self.bus.len()).all(|i| self.bus_ok(i, w, sem))
    }
    /// Index of first violated item, for messages.
    pub fn violated(&self, w: &[T], sem: &impl BusSem<T>) -> Option<String> {
        for (i, e) in self.alg.iter().enumerate() {
            if e.eval(w) != T::zero() {
                return Some(format!("algebraic constraint {i}"));
            }
        }
        (0..self.bus.len())
            .find(|i| !self.bus_ok(*i, w, sem))
            .map(|i| format!("bus interaction {i}"))
    }
    /// Net multiset of stateful interactions: (bus, payload) -> sum of multiplicities (non-zero).
    pub fn effect(&self, w: &[T], sem: &impl BusSem<T>) -> BTreeMap<Vec<T>, T> {
        let mut m: BTreeMap<Vec<T>, T> = BTreeMap::new();
        for b in &self.bus {
            let id = b.id.eval(w);
            if !sem.stateful(id) {
                continue;
            }
            let mut k = vec![id];
            k.extend(b.args.iter().map(|a| a.eval(w)));
            let mult = b.mult.eval(w);
            *m.entry(k).or_insert(T::zero()) += mult;
        }
        m.retain(|_, v| *v != T::zero());
        m
    }

    /// All solutions over variables 0..n (n may be larger than the variables occurring: these are
    /// fixed to zero unless listed in `free`). None if more than `limit` search nodes are needed.
    pub fn solutions(&self, p: u64, sem: &impl BusSem<T>, limit: usize) -> Option<Vec<Vec<T>>> {
        self.solutions_fixing(p, sem, limit, &BTreeMap::new(), usize::MAX)
    }

    pub fn solutions_fixing(
        &self,
        p: u64,
        sem: &impl BusSem<T>,
        limit: usize,
        fixed: &BTreeMap<usize, T>,
        max_solutions: usize,
    ) -> Option<Vec<Vec<T>>> {
        let n = self.n;
        // items: constraint -> vars
        let mut item_vars: Vec<BTreeSet<usize>> = vec![];
        for e in &self.alg {
            let mut s = BTreeSet::new();
            e.vars(&mut s);
            item_vars.push(s);
        }
        for b in &self.bus {
            let mut s = BTreeSet::new();
            b.id.vars(&mut s);
            b.mult.vars(&mut s);
            for a in &b.args {
                a.vars(&mut s);
            }
            item_vars.push(s);
        }
        let check = |item: usize, w: &[T]| -> bool {
            if item < self.alg.len() {
                self.alg[item].eval(w) == T::zero()
            } else {
                self.bus_ok(item - self.alg.len(), w, sem)
            }
        };
        let mut w = vec![T::zero(); n];
        for (k, v) in fixed {
            w[*k] = *v;
        }
        let occurring: BTreeSet<usize> = item_vars.iter().flatten().copied().collect();
        let unfixed: Vec<usize> = occurring
            .iter()
            .copied()
            .filter(|v| !fixed.contains_key(v))
            .collect();
        // constraints fully fixed
        for (i, vs) in item_vars.iter().enumerate() {
            if vs.iter().all(|v| fixed.contains_key(v)) && !check(i, &w) {
                return Some(vec![]);
            }
        }
        let remaining: Vec<BTreeSet<usize>> = item_vars
            .iter()
            .map(|vs| {
                vs.iter()
                    .copied()
                    .filter(|v| !fixed.contains_key(v))
                    .collect()
            })
            .collect();
        // unary domains
        let mut dom: BTreeMap<usize, Vec<T>> = BTreeMap::new();
        let all: Vec<T> = (0..p).map(T::from).collect();
        for v in &unfixed {
            let unary: Vec<usize> = remaining
                .iter()
                .enumerate()
                .filter(|(_, vs)| vs.len() == 1 && vs.contains(v))
                .map(|(i, _)| i)
                .collect();
            let mut d = vec![];
            for x in &all {
                w[*v] = *x;
                if unary.iter().all(|i| check(*i, &w)) {
                    d.push(*x);
                }
            }
            if d.is_empty() {
                return Some(vec![]);
            }
            dom.insert(*v, d);
        }
        // static order: greedily smallest domain, preferring variables that complete constraints
        let mut order: Vec<usize> = vec![];
        let mut checks: Vec<Vec<usize>> = vec![];
        let mut done: BTreeSet<usize> = BTreeSet::new();
        let mut left: BTreeSet<usize> = unfixed.iter().copied().collect();
        while !left.is_empty() {
            let best = *left
                .iter()
                .max_by_key(|v| {
                    let completes = remaining
                        .iter()
                        .filter(|vs| {
                            vs.contains(v)
                                && vs.len() > 1
                                && vs.iter().all(|x| x == *v || done.contains(x))
                        })
                        .count();
                    let touches = remaining
                        .iter()
                        .filter(|vs| vs.contains(v) && vs.len() > 1)
                        .map(|vs| vs.iter().filter(|x| done.contains(x)).count())
                        .sum::<usize>();
                    let d = dom[*v].len();
                    // a completed variable is as good as a small domain
                    let score: i64 = if completes > 0 {
                        1_000_000 - (d as i64) / 4
                    } else {
                        500_000 - (d as i64) * 100 + touches as i64
                    };
                    score
                })
                .unwrap();
            left.remove(&best);
            done.insert(best);
            checks.push(
                remaining
                    .iter()
                    .enumerate()
                    .filter(|(_, vs)| {
                        vs.len() > 1 && vs.contains(&best) && vs.iter().all(|x| done.contains(x))
                    })
                    .map(|(i, _)| i)
                    .collect(),
            );
            order.push(best);
        }
        let mut out = vec![];
        let mut nodes = 0usize;
        #[allow(clippy::too_many_arguments)]
        fn rec<T: FieldElement>(
            k: usize,
            order: &[usize],
            checks: &[Vec<usize>],
            dom: &BTreeMap<usize, Vec<T>>,
            w: &mut Vec<T>,
            check: &impl Fn(usize, &[T]) -> bool,
            nodes: &mut usize,
            limit: usize,
            max_solutions: usize,
            out: &mut Vec<Vec<T>>,
        ) -> bool {
            if k == order.len() {
                out.push(w.clone());
                return true;
            }
            let v = order[k];
            for x in &dom[&v] {
                *nodes += 1;
                if *nodes > limit {
                    return false;
                }
                w[v] = *x;
                if checks[k].iter().all(|i| check(*i, w)) {
                    if !rec(
                        k + 1,
                        order,
                        checks,
                        dom,
                        w,
                        check,
                        nodes,
                        limit,
                        max_solutions,
                        out,
                    ) {
                        return false;
                    }
                    if out.len() >= max_solutions {
                        return true;
                    }
                }
            }
            true
        }
        for v in &unfixed {
            w[*v] = T::zero();
        }
        if rec(
            0,
            &order,
            &checks,
            &dom,
            &mut w,
            &check,
            &mut nodes,
            limit,
            max_solutions,
            &mut out,
        ) {
            Some(out)
        } else {
            None
        }
    }
}

/// Evaluates a computation method.
pub fn eval_method<T: FieldElement, V: Ord + Clone + Eq>(
    m: &ComputationMethod<T, GroupedExpression<T, V>>,
    w: &impl Fn(&V) -> T,
) -> T {
    match m {
        ComputationMethod::Constant(c) => *c,
        ComputationMethod::QuotientOrZero(a, b) => {
            let d = eval_ge(b, w);
            if d == T::zero() {
                T::zero()
            } else {
                eval_ge(a, w) / d
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Generators

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Bit,
    Small,
    Free,
}

/// Builds systems that hold for a hidden witness.
pub struct Builder<T> {
    pub sys: Sys<T>,
    pub w: BTreeMap<Var, T>,
    pub kinds: Vec<(Var, Kind)>,
    pub bw: u32,
    pool: Vec<u32>,
    pub max_vars: usize,
    /// Results of is-zero gadgets always get an explicit boolean constraint.
    pub bits_checked: bool,
}

impl<T: FieldElement> Builder<T> {
    pub fn new(bw: u32, max_vars: usize) -> Self {
        Builder {
            sys: Sys::default(),
            w: BTreeMap::new(),
            kinds: vec![],
            bw,
            pool: (0..100).collect(),
            max_vars,
            bits_checked: false,
        }
    }
    pub fn val(&self, e: &Ex<T>) -> T {
        e.eval(&|v| self.w[&v])
    }
    pub fn new_var(&mut self, g: &mut Gen, value: T, kind: Kind) -> Var {
        let i = g.usize(self.pool.len().min(12));
        let v = Var(self.pool.remove(i));
        self.w.insert(v, value);
        self.kinds.push((v, kind));
        v
    }
    pub fn full(&self) -> bool {
        self.kinds.len() >= self.max_vars
    }
    pub fn of_kind(&self, k: Kind) -> Vec<Var> {
        self.kinds
            .iter()
            .filter(|(_, x)| *x == k)
            .map(|(v, _)| *v)
            .collect()
    }
    pub fn any_var(&mut self, g: &mut Gen) -> Var {
        let n = self.kinds.len();
        if n == 0 || (!self.full() && g.chance(1, 6)) {
            self.fresh(g)
        } else {
            self.kinds[g.usize(n)].0
        }
    }
    pub fn kind_of(&self, v: Var) -> Kind {
        self.kinds.iter().find(|(x, _)| *x == v).unwrap().1
    }
    /// A new variable of random kind, usually with the constraint that makes it of this kind.
    pub fn fresh(&mut self, g: &mut Gen) -> Var {
        match g.weighted(&[5, 5, 2]) {
            0 => self.small(g),
            1 => self.bit(g),
            _ => {
                let v = gen_const(g);
                self.new_var(g, v, Kind::Free)
            }
        }
    }
    pub fn bit(&mut self, g: &mut Gen) -> Var {
        let x = g.below(2);
        let v = self.new_var(g, T::from(x), Kind::Bit);
        if g.chance(9, 10) {
            self.constrain_bit(g, v);
        }
        v
    }
    pub fn constrain_bit(&mut self, g: &mut Gen, v: Var) {
        let e = match g.usize(5) {
            0 | 1 => Ex::V(v) * (Ex::V(v) - Ex::c(1)),
            2 => Ex::V(v) * (Ex::c(1) - Ex::V(v)),
            3 => (Ex::c(1) - Ex::V(v)) * Ex::V(v),
            _ => {
                // via a bus
                self.sys.bus.push(Bus {
                    id: Ex::c(VARRANGE),
                    mult: Ex::c(1),
                    args: vec![Ex::V(v), Ex::c(1)],
                });
                return;
            }
        };
        self.sys.alg.push(e);
    }
    pub fn small(&mut self, g: &mut Gen) -> Var {
        let x = g.below(1 << self.bw);
        self.small_with(g, x)
    }
    pub fn small_with(&mut self, g: &mut Gen, x: u64) -> Var {
        let v = self.new_var(g, T::from(x), Kind::Small);
        if g.chance(9, 10) {
            self.range_check(g, Ex::V(v));
        }
        v
    }
    /// Range check for an expression whose value is below 2^bw.
    pub fn range_check(&mut self, g: &mut Gen, e: Ex<T>) {
        let b = 1u64 << self.bw;
        let one = Ex::c(1);
        let (id, args) = match g.usize(5) {
            0 | 1 => (RANGE, vec![e]),
            2 => (VARRANGE, vec![e, Ex::c(self.bw as u64)]),
            3 => {
                let other = Ex::c(g.below(b));
                if g.bool() {
                    (BITWISE, vec![e, other, Ex::c(0), Ex::c(0)])
                } else {
                    (BITWISE, vec![other, e, Ex::c(0), Ex::c(0)])
                }
            }
            _ => (TUPLE, vec![e, Ex::c(g.below(2))]),
        };
        self.sys.bus.push(Bus {
            id: Ex::c(id),
            mult: one,
            args,
        });
    }
    /// Affine expression over up to `k` variables.
    pub fn affine(&mut self, g: &mut Gen, k: usize) -> Ex<T> {
        let n = g.range(1, k);
        let mut e: Option<Ex<T>> = None;
        for i in 0..n {
            let v = self.any_var(g);
            let c: T = gen_coeff(g, self.bw, i);
            let t = if c == T::one() {
                Ex::V(v)
            } else if c == -T::one() && g.bool() {
                -Ex::V(v)
            } else if g.bool() {
                Ex::C(c) * Ex::V(v)
            } else {
                Ex::V(v) * Ex::C(c)
            };
            e = Some(match e {
                None => t,
                Some(e) => {
                    if g.bool() {
                        e + t
                    } else {
                        e - t
                    }
                }
            });
        }
        let mut e = e.unwrap();
        if g.chance(1, 3) {
            e = e + Ex::C(gen_const(g));
        }
        e
    }
    /// `e - e(w)`.
    pub fn zeroed(&self, e: Ex<T>) -> Ex<T> {
        let c = self.val(&e);
        if c == T::zero() {
            e
        } else {
            e - Ex::C(c)
        }
    }
    pub fn assert_zero(&mut self, e: Ex<T>) {
        debug_assert!(self.val(&e) == T::zero());
        self.sys.alg.push(e);
    }
    fn need_bits(&mut self, g: &mut Gen, n: usize) -> Vec<Var> {
        let mut b = self.of_kind(Kind::Bit);
        let cap = self.max_vars + 3;
        while b.len() < n && self.kinds.len() < cap {
            b.push(self.bit(g));
        }
        g.shuffle(&mut b);
        b.truncate(n);
        b
    }
    fn need_small(&mut self, g: &mut Gen, n: usize) -> Vec<Var> {
        let mut b = self.of_kind(Kind::Small);
        let cap = self.max_vars + 3;
        while b.len() < n && self.kinds.len() < cap {
            b.push(self.small(g));
        }
        g.shuffle(&mut b);
        b.truncate(n);
        b
    }

    /// Adds one random constraint (or a small gadget). All are true for the witness.
    pub fn add_constraint(&mut self, g: &mut Gen) {
        match g.weighted(&[
            6, 5, 4, 3, 3, 3, 3, 3, 3, 2, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2,
        ]) {
            0 => {
                // linear
                let e = self.affine(g, 4);
                let e = self.zeroed(e);
                self.assert_zero(e);
            }
            1 => {
                // product of affine, one of them zero
                let a = self.affine(g, 3);
                let a = self.zeroed(a);
                let b = self.affine(g, 3);
                let e = if g.bool() { a * b } else { b * a };
                self.assert_zero(e);
            }
            2 => {
                // general quadratic
                let a = self.affine(g, 2);
                let b = self.affine(g, 2);
                let c = self.affine(g, 2);
                let e = if g.bool() { a * b + c } else { c - a * b };
                let e = self.zeroed(e);
                self.assert_zero(e);
            }
            3 => {
                // range check of an affine expression, if in range
                let a = self.affine(g, 3);
                let v = self.val(&a).to_integer().try_into_u64().unwrap_or(u64::MAX);
                if v < 1 << self.bw {
                    self.range_check(g, a);
                } else {
                    let c = T::from(v) - T::from(g.below(1 << self.bw));
                    self.range_check(g, a - Ex::C(c));
                }
            }
            4 => {
                // xor / and-like lookup
                let vs = self.need_small(g, 2);
                if vs.len() < 2 {
                    return;
                }
                let iv = |s: &Self, v: Var| s.w[&v].to_integer().try_into_u64().unwrap();
                let (x, y) = (iv(self, vs[0]), iv(self, vs[1]));
                let b = 1u64 << self.bw;
                if x >= b || y >= b {
                    return;
                }
                if g.chance(3, 4) && !self.full() {
                    let z = self.new_var(g, T::from(x ^ y), Kind::Small);
                    self.sys.bus.push(Bus {
                        id: Ex::c(BITWISE),
                        mult: Ex::c(1),
                        args: vec![Ex::V(vs[0]), Ex::V(vs[1]), Ex::V(z), Ex::c(1)],
                    });
                } else {
                    self.sys.bus.push(Bus {
                        id: Ex::c(BITWISE),
                        mult: Ex::c(1),
                        args: vec![Ex::V(vs[0]), Ex::V(vs[1]), Ex::C(T::from(x ^ y)), Ex::c(1)],
                    });
                }
            }
            5 => {
                // is-zero gadget
                let a = self.affine(g, 2);
                let av = self.val(&a);
                let eq = self.new_var(
                    g,
                    if av == T::zero() { T::one() } else { T::zero() },
                    Kind::Bit,
                );
                let inv_v = if av == T::zero() {
                    T::from(g.below(3))
                } else {
                    T::one() / av
                };
                let inv = self.new_var(g, inv_v, Kind::Free);
                self.assert_zero(Ex::V(eq) * a.clone());
                self.assert_zero(a * Ex::V(inv) + Ex::V(eq) - Ex::c(1));
                if self.bits_checked || g.bool() {
                    self.constrain_bit(g, eq);
                }
            }
            6 => {
                // one-hot selectors
                let n = g.range(2, 4);
                let hot = g.usize(n);
                let mut bits = vec![];
                for i in 0..n {
                    let v = self.new_var(g, T::from((i == hot) as u32), Kind::Bit);
                    self.constrain_bit(g, v);
                    bits.push(v);
                }
                let mut e = Ex::V(bits[0]);
                for b in &bits[1..] {
                    e = e + Ex::V(*b);
                }
                let e1 = e.clone() - Ex::c(1);
                self.assert_zero(e1);
                if g.chance(2, 3) {
                    // sum i * flag_i = value
                    let mut e = Ex::c(0);
                    for b in &bits {
                        let k = g.below(4);
                        e = e + Ex::c(k) * Ex::V(*b);
                    }
                    if g.bool() {
                        let x = self.any_var(g);
                        e = e - Ex::V(x);
                    }
                    let e = self.zeroed(e);
                    self.assert_zero(e);
                }
            }
            7 => {
                // intermediate column: z = e
                if self.kinds.len() > self.max_vars + 2 {
                    return;
                }
                let a = self.affine(g, 3);
                let e = if g.bool() {
                    let b = self.affine(g, 1);
                    a * b
                } else {
                    a
                };
                let z = self.new_var(g, self.val(&e), Kind::Free);
                let e = if g.bool() { Ex::V(z) - e } else { e - Ex::V(z) };
                self.assert_zero(e);
            }
            8 => {
                // conditional: flag * (a) = 0
                let b = self.need_bits(g, 1);
                if b.is_empty() {
                    return;
                }
                let a = self.affine(g, 3);
                let f = if self.w[&b[0]] == T::zero() {
                    if g.bool() {
                        let a0 = self.zeroed(a);
                        self.assert_zero(Ex::V(b[0]) * a0);
                        return;
                    }
                    Ex::V(b[0])
                } else {
                    Ex::c(1) - Ex::V(b[0])
                };
                self.assert_zero(f * a);
            }
            9 => {
                // duplicate, possibly scaled
                if self.sys.alg.is_empty() {
                    return;
                }
                let e = self.sys.alg[g.usize(self.sys.alg.len())].clone();
                let e = if g.bool() {
                    e
                } else {
                    Ex::C(nonzero(gen_const(g))) * e
                };
                self.assert_zero(e);
            }
            10 => {
                // carry: a + b - c in {0, 2^bw}
                let vs = self.need_small(g, 2);
                if vs.len() < 2 {
                    return;
                }
                let b = 1u64 << self.bw;
                let s = self.val(&(Ex::V(vs[0]) + Ex::V(vs[1])));
                let s = s.to_integer().try_into_u64().unwrap();
                let c = self.small_with(g, s % b);
                let d = Ex::V(vs[0]) + Ex::V(vs[1]) - Ex::V(c);
                if s / b > 1 {
                    return;
                }
                let e = d.clone() * (d - Ex::c(b));
                self.assert_zero(e);
                if g.chance(1, 3) {
                    // second copy with another result (quadratic equivalence)
                    let c2 = self.small_with(g, s % b);
                    let d = Ex::V(vs[0]) + Ex::V(vs[1]) - Ex::V(c2);
                    self.assert_zero(d.clone() * (d - Ex::c(b)));
                }
            }
            11 => {
                // decomposition x = sum 2^(bw*i) * limb_i
                let n = g.range(2, 3);
                let mut e = Ex::c(0);
                for i in 0..n {
                    let v = if g.bool() && !self.full() {
                        self.small(g)
                    } else {
                        self.any_var(g)
                    };
                    let k = T::from(1u64 << self.bw).pow((i as u64).into());
                    e = e + Ex::C(k) * Ex::V(v);
                }
                if g.bool() && !self.full() {
                    let x = self.new_var(g, self.val(&e), Kind::Free);
                    e = e - Ex::V(x);
                }
                let e = self.zeroed(e);
                self.assert_zero(e);
            }
            12 => {
                // lookup with multiplicity
                let b = self.need_bits(g, 1);
                if b.is_empty() {
                    return;
                }
                let m = if g.bool() {
                    Ex::V(b[0])
                } else {
                    Ex::c(1) - Ex::V(b[0])
                };
                let a = self.affine(g, 2);
                let a = if self.val(&m) == T::zero() {
                    a
                } else {
                    let v = self.val(&a) - T::from(g.below(1 << self.bw));
                    a - Ex::C(v)
                };
                self.sys.bus.push(Bus {
                    id: Ex::c(RANGE),
                    mult: m,
                    args: vec![a],
                });
            }
            13 => {
                // sum of non-negative things is zero
                let vs = self.need_small(g, 2);
                let mut e = Ex::c(0);
                for v in vs {
                    if self.w[&v] == T::zero() {
                        e = e + Ex::c(1 + g.below(2)) * Ex::V(v);
                    }
                }
                self.assert_zero(e);
            }
            14 => {
                // x*a = 0, x*b = 0
                let x = self.affine(g, 1);
                let x = self.zeroed(x);
                let a = self.any_var(g);
                let b = self.any_var(g);
                self.assert_zero(x.clone() * Ex::V(a));
                self.assert_zero(x * Ex::V(b));
            }
            15 => {
                // free variables: x * v1 + y * v2 = r
                let x = self.affine(g, 2);
                let y = self.affine(g, 2);
                let v1v = gen_const(g);
                let v2v = gen_const(g);
                let v1 = self.new_var(g, v1v, Kind::Free);
                let v2 = self.new_var(g, v2v, Kind::Free);
                let e = x * Ex::V(v1) + y * Ex::V(v2);
                let e = if g.bool() {
                    let r = self.affine(g, 1);
                    e - r
                } else {
                    e
                };
                let e = self.zeroed(e);
                self.assert_zero(e);
            }
            16 => {
                // two roots: (x - c1) * (x - c2)
                let x = self.any_var(g);
                let c1 = self.w[&x];
                let c2: T = gen_const(g);
                let (p, q) = if g.bool() { (c1, c2) } else { (c2, c1) };
                let k = nonzero(gen_const(g));
                self.assert_zero((Ex::V(x) - Ex::C(p)) * (Ex::C(k) * (Ex::V(x) - Ex::C(q))));
            }
            17 => {
                // lookup with a variable operation / bit count
                let vs = self.need_small(g, 1);
                let b = self.need_bits(g, 1);
                if vs.is_empty() || b.is_empty() {
                    return;
                }
                let x = self.w[&vs[0]].to_integer().try_into_u64().unwrap();
                if x >= 1 << self.bw {
                    return;
                }
                if g.bool() {
                    // bits = bw - bit or bw + 1 - ...
                    let bv = self.w[&b[0]].to_integer().try_into_u64().unwrap();
                    let bits = Ex::c(self.bw as u64) + Ex::V(b[0]);
                    if x < 1 << (self.bw as u64 + bv) {
                        self.sys.bus.push(Bus {
                            id: Ex::c(VARRANGE),
                            mult: Ex::c(1),
                            args: vec![Ex::V(vs[0]), bits],
                        });
                    }
                } else {
                    let y = g.below(1 << self.bw);
                    let bv = self.w[&b[0]].to_integer().try_into_u64().unwrap();
                    let z = if bv == 1 { x ^ y } else { 0 };
                    let z = self.new_var(g, T::from(z), Kind::Small);
                    self.sys.bus.push(Bus {
                        id: Ex::c(BITWISE),
                        mult: Ex::c(1),
                        args: vec![Ex::V(vs[0]), Ex::c(y), Ex::V(z), Ex::V(b[0])],
                    });
                }
            }
            18 => {
                // degree-3 constraint
                let a = self.affine(g, 2);
                let b = self.affine(g, 2);
                let c = self.affine(g, 2);
                let e = a * b * c;
                let e = self.zeroed(e);
                self.assert_zero(e);
            }
            _ => {
                // equal variables / copies
                let x = self.any_var(g);
                if self.kinds.len() > self.max_vars + 2 {
                    return;
                }
                let k = self.kind_of(x);
                let y = self.new_var(g, self.w[&x], k);
                if k == Kind::Small && g.bool() {
                    self.range_check(g, Ex::V(y));
                }
                let f = self.need_bits(g, 1);
                if g.bool() || f.is_empty() {
                    self.assert_zero(Ex::V(x) - Ex::V(y));
                } else {
                    self.assert_zero((Ex::V(f[0]) + Ex::c(1)) * (Ex::V(x) - Ex::V(y)));
                }
            }
        }
    }
}

pub fn nonzero<T: FieldElement>(c: T) -> T {
    if c == T::zero() {
        T::one()
    } else {
        c
    }
}

/// A constant, biased to small positive and negative values.
pub fn gen_const<T: FieldElement>(g: &mut Gen) -> T {
    match g.usize(4) {
        0 | 1 => T::from(g.below(5)),
        2 => -T::from(g.below(5)),
        _ => {
            let p = T::modulus().try_into_u64().unwrap_or(u64::MAX);
            T::from(g.below(p))
        }
    }
}

fn gen_coeff<T: FieldElement>(g: &mut Gen, bw: u32, i: usize) -> T {
    match g.weighted(&[6, 3, 3, 2]) {
        0 => T::one(),
        1 => -T::one(),
        2 => T::from(1u64 << bw).pow(((i % 3) as u64).into()),
        _ => nonzero(gen_const(g)),
    }
}

/// Random system with a hidden witness.
pub fn gen_system<T: FieldElement>(g: &mut Gen, bw: u32, max_vars: usize, n: usize) -> Builder<T> {
    gen_system_in(g, Builder::new(bw, max_vars), n)
}
/// As above; all results of is-zero gadgets are boolean-constrained.
pub fn gen_system_checked<T: FieldElement>(g: &mut Gen, bw: u32, max_vars: usize, n: usize) -> Builder<T> {
    let mut b = Builder::new(bw, max_vars);
    b.bits_checked = true;
    gen_system_in(g, b, n)
}
fn gen_system_in<T: FieldElement>(g: &mut Gen, mut b: Builder<T>, n: usize) -> Builder<T> {
    let n = g.range(1, n);
    for _ in 0..n {
        b.add_constraint(g);
    }
    if g.chance(1, 3) {
        let mut a = std::mem::take(&mut b.sys.alg);
        g.shuffle(&mut a);
        b.sys.alg = a;
        let mut a = std::mem::take(&mut b.sys.bus);
        g.shuffle(&mut a);
        b.sys.bus = a;
    }
    b
}
