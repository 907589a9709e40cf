//! C16, C17: the OpenVM bus models.
use powdr_autoprecompiles::bus_map::BusType;
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::low_degree_bus_interaction_optimizer::LowDegreeBusInteractionOptimizer;
use powdr_autoprecompiles::memory_optimizer::{MemoryBusInteraction, MemoryOp};
use powdr_autoprecompiles::range_constraint_optimizer::{
    optimize_range_constraints, RangeConstraintHandler,
};
use powdr_autoprecompiles::DegreeBound;
use powdr_constraint_solver::bus_interaction_handler::BusInteractionHandler;
use powdr_constraint_solver::constraint_system::{
    AlgebraicConstraint, BusInteraction, ConstraintSystem,
};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::solver::new_solver;
use powdr_number::{BabyBearField, FieldElement, GoldilocksField, KoalaBearField, LargeInt};
use powdr_openvm_bus_interaction_handler::bus_map::{BusMap, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use powdr_verif_harness::engine::{catch, main as run, CaseResult, Failure, Gen, Property, Sub};
use powdr_verif_harness::model::{eval_ge, Ex, Var};
use powdr_verif_harness::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};

type GE<T> = GroupedExpression<T, Var>;

/// Largest bit width of the modelled variable range checker table.
const MAX_BITS: u64 = 25;

fn int<T: FieldElement>(v: T) -> u64 {
    v.to_integer().try_into_u64().unwrap()
}

/// Own membership test of a range constraint, from its published mask and range.
fn member<T: FieldElement>(rc: &RangeConstraint<T>, v: T) -> bool {
    let x = v.to_integer();
    let in_mask = (x & *rc.mask()) == x;
    let (min, max) = rc.range();
    let (min, max) = (min.to_integer(), max.to_integer());
    let in_range = if min <= max {
        min <= x && x <= max
    } else {
        x >= min || x <= max
    };
    in_mask && in_range
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Exec,
    Mem,
    Pc,
    VarRange,
    Bitwise,
    Tuple,
}
use Kind::*;
const KINDS: [Kind; 6] = [Bitwise, VarRange, Tuple, Mem, Exec, Pc];

struct World {
    ids: BTreeMap<u8, u64>,
    sizes: [u32; 2],
    map: BusMap,
}
fn key(k: Kind) -> u8 {
    k as u8
}
impl World {
    fn generate(g: &mut Gen, byte_first: bool) -> World {
        let s0 = if byte_first { 256 } else { 1 << g.range(1, 9) };
        let s1 = if g.bool() { 1u32 << g.range(0, 16) } else { 2048 };
        let mut ids: BTreeMap<u8, u64> = [
            (key(Exec), 0),
            (key(Mem), 1),
            (key(Pc), 2),
            (key(VarRange), 3),
            (key(Bitwise), 6),
            (key(Tuple), 7),
        ]
        .into();
        if g.chance(1, 3) {
            let mut pool: Vec<u64> = (0..9).collect();
            pool.push(1000);
            g.shuffle(&mut pool);
            for (i, v) in ids.values_mut().enumerate() {
                *v = pool[i];
            }
        }
        let sizes = [s0, s1];
        let map = BusMap::from_id_type_pairs([
            (ids[&key(Exec)], BusType::ExecutionBridge),
            (ids[&key(Mem)], BusType::Memory),
            (ids[&key(Pc)], BusType::PcLookup),
            (ids[&key(VarRange)], BusType::Other(OpenVmBusType::VariableRangeChecker)),
            (ids[&key(Bitwise)], BusType::Other(OpenVmBusType::BitwiseLookup)),
            (ids[&key(Tuple)], BusType::Other(OpenVmBusType::TupleRangeChecker(sizes))),
        ]);
        World { ids, sizes, map }
    }
    fn id(&self, k: Kind) -> u64 {
        self.ids[&key(k)]
    }
    fn kind(&self, id: u64) -> Option<Kind> {
        KINDS.into_iter().find(|k| self.id(*k) == id)
    }
    /// The table / memory model: is the interaction with this (non-zero) multiplicity possible?
    fn admits<T: FieldElement>(&self, k: Kind, mult: T, p: &[T]) -> bool {
        let v = |i: usize| int(p[i]);
        match k {
            Bitwise => {
                v(0) < 256
                    && v(1) < 256
                    && match v(3) {
                        0 => v(2) == 0,
                        1 => v(2) == v(0) ^ v(1),
                        _ => false,
                    }
            }
            VarRange => v(1) <= MAX_BITS && v(0) < 1 << v(1),
            Tuple => v(0) < self.sizes[0] as u64 && v(1) < self.sizes[1] as u64,
            Mem => {
                mult != -T::one()
                    || match v(0) {
                        1 if v(1) == 0 => p[2..p.len() - 1].iter().all(|d| d.is_zero()),
                        1 | 2 => p[2..p.len() - 1].iter().all(|d| int(*d) < 256),
                        _ => true,
                    }
            }
            Exec | Pc => true,
        }
    }
    /// A random admitted payload (for a lookup or a memory receive).
    fn payload<T: FieldElement>(&self, g: &mut Gen, k: Kind) -> Vec<T> {
        let f = |x: u64| T::from(x);
        match k {
            Bitwise => {
                let x = interesting(g, 8);
                let y = if g.chance(1, 4) { x } else { interesting(g, 8) };
                if g.bool() {
                    vec![f(x), f(y), f(x ^ y), f(1)]
                } else {
                    vec![f(x), f(y), f(0), f(0)]
                }
            }
            VarRange => {
                let b = match g.usize(4) {
                    0 => 0,
                    1 => MAX_BITS,
                    _ => g.below(MAX_BITS + 1),
                };
                vec![f(interesting(g, b as u32)), f(b)]
            }
            Tuple => vec![
                f(edge(g, self.sizes[0] as u64)),
                f(edge(g, self.sizes[1] as u64)),
            ],
            Mem => {
                let asp = g.pick(&[1u64, 2, 1, 3, 4, 0]);
                let ptr = g.pick(&[0u64, 4, 8, 124, 65536]);
                let n = g.pick(&[4usize, 1, 2, 8]);
                let data: Vec<T> = (0..*n)
                    .map(|_| match (*asp, *ptr) {
                        (1, 0) => T::zero(),
                        (1 | 2, _) => f(interesting(g, 8)),
                        _ => random_field(g),
                    })
                    .collect();
                [f(*asp), f(*ptr)]
                    .into_iter()
                    .chain(data)
                    .chain([f(g.below(1 << 29))])
                    .collect()
            }
            Exec => vec![random_field(g), random_field(g)],
            Pc => (0..9).map(|_| random_field(g)).collect(),
        }
    }
}

/// A value below 2^bits, often at the edges or with few bits set.
fn interesting(g: &mut Gen, bits: u32) -> u64 {
    let n = 1u64 << bits;
    match g.usize(5) {
        0 => 0,
        1 => n - 1,
        2 => (1u64 << g.below(bits as u64 + 1)).min(n - 1),
        3 => n - 1 - g.below(n.min(4)),
        _ => g.below(n),
    }
}
fn edge(g: &mut Gen, n: u64) -> u64 {
    match g.usize(3) {
        0 => 0,
        1 => n - 1,
        _ => g.below(n),
    }
}
fn random_field<T: FieldElement>(g: &mut Gen) -> T {
    match g.usize(4) {
        0 => T::zero(),
        1 => -T::from(1 + g.below(3)),
        2 => T::from(g.below(1000)),
        _ => {
            let p = T::modulus().try_into_u64().unwrap();
            T::from(g.below(p))
        }
    }
}

/// A range constraint that contains the value.
fn range_around<T: FieldElement>(g: &mut Gen, v: T) -> RangeConstraint<T> {
    let mut rc = RangeConstraint::default();
    for _ in 0..g.range(1, 2) {
        let next = match g.usize(6) {
            0 => RangeConstraint::from_value(v),
            1 => RangeConstraint::default(),
            2 => {
                let extra = match g.usize(3) { // bits added
                    0 => 0u64,
                    1 => g.u64() & 0xff,
                    _ => g.u64() & 0x3fffffff,
                };
                RangeConstraint::from_mask(int(v) | extra)
            }
            3 => {
                let a = T::from(g.below(300));
                let b = T::from(g.below(300));
                RangeConstraint::from_range(v - a, v + b)
            }
            4 => RangeConstraint::from_range(T::zero(), v),
            _ => RangeConstraint::from_mask(u64::MAX.checked_shr(int(v).leading_zeros()).unwrap_or(0)),
        };
        let c = rc.conjunction(&next);
        // conjunction is the subject of C04
        if member(&c, v) {
            rc = c;
        }
    }
    rc
}

fn c16_handler<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let w = World::generate(g, false);
    let h = OpenVmBusInteractionHandler::<T>::new(w.map.clone());
    let k = *g.pick(&KINDS);
    let mult = match g.usize(6) {
        0 | 1 => T::one(),
        2 | 3 => -T::one(),
        4 => T::zero(),
        _ => T::from(g.range(2, 5) as u64),
    };
    // The interaction only says something about the payload if it happens.
    let p: Vec<T> = if mult.is_zero() {
        let n = w.payload::<T>(g, k).len();
        g.label("multiplicity-zero");
        (0..n).map(|_| random_field(g)).collect()
    } else if k == Mem && mult != -T::one() {
        g.label("memory-send");
        w.payload::<T>(g, k)
            .iter()
            .enumerate()
            .map(|(i, v)| if i >= 2 { random_field(g) } else { *v })
            .collect()
    } else {
        w.payload(g, k)
    };
    assert!(mult.is_zero() || w.admits(k, mult, &p));
    let mult_rc = if g.chance(1, 4) { range_around(g, mult) } else { RangeConstraint::from_value(mult) };
    let payload: Vec<RangeConstraint<T>> = p.iter().map(|v| range_around(g, *v)).collect();
    let bi = BusInteraction {
        bus_id: RangeConstraint::from_value(T::from(w.id(k))),
        multiplicity: mult_rc,
        payload,
    };
    g.note(|| format!("{k:?} mult {mult} payload {p:?} ranges {:?}", bi.payload.iter().map(|r| r.to_string()).collect::<Vec<_>>()));
    let out = h.handle_bus_interaction(bi.clone());
    let show = || {
        format!(
            "{k:?} (id {}) multiplicity {mult} payload {p:?}, input ranges {:?}, inferred {:?}",
            w.id(k),
            bi.payload.iter().map(|r| r.to_string()).collect::<Vec<_>>(),
            out.payload.iter().map(|r| r.to_string()).collect::<Vec<_>>()
        )
    };
    ensure_eq!(out.payload.len(), p.len(), "payload-length", "{}", show());
    for (rc, v) in out.payload.iter().zip(&p) {
        ensure!(member(rc, *v), "payload-excluded", "inferred range {rc} excludes {v}: {}", show());
    }
    ensure!(
        member(&out.multiplicity, mult) && member(&out.bus_id, T::from(w.id(k))),
        "mult-excluded",
        "{}",
        show()
    );
    if bi.payload != out.payload {
        g.nontrivial();
        g.label("narrowed");
    }
    match h.handle_bus_interaction_checked(bi.clone()) {
        Err(_) => return Err(Failure::new("declared-impossible", show())),
        Ok(r) => {
            for (rc, v) in r.fields().zip([T::from(w.id(k)), mult].iter().chain(&p)) {
                ensure!(member(rc, *v), "payload-excluded-checked", "{rc} excludes {v}: {}", show());
            }
        }
    }
    // Does the model use the table at all? (Bytes received, op in {0, 1}, ...) Not required by the property.
    for k in KINDS {
        ensure_eq!(
            h.is_stateful(T::from(w.id(k))),
            matches!(k, Exec | Mem),
            "stateful",
            "{k:?}"
        );
    }
    Ok(())
}

/// Arbitrary ranges (often without any admitted payload): "impossible" must be true.
fn c16_impossible<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let w = World::generate(g, false);
    let h = OpenVmBusInteractionHandler::<T>::new(w.map.clone());
    let k = *g.pick(&[Bitwise, VarRange, Tuple]);
    // Ranges with few members so that the admitted payloads can be enumerated.
    let n = if k == Bitwise { 4 } else { 2 };
    let mut sets: Vec<Vec<T>> = vec![];
    let mut rcs = vec![];
    for i in 0..n {
        let base = match (k, i) {
            (Bitwise, 3) => g.below(4),
            (Bitwise, _) => interesting(g, 8) + if g.chance(1, 6) { g.below(300) } else { 0 },
            (VarRange, 1) => {
                let top = if g.chance(1, 8) { 70 } else { 28 };
                g.below(top)
            }
            _ => interesting(g, 12) + if g.chance(1, 3) { g.below(1 << 27) } else { 0 },
        };
        let v = T::from(base);
        let rc = match g.usize(3) {
            0 => RangeConstraint::from_value(v),
            1 => {
                let d = g.below(4);
                RangeConstraint::from_range(v - T::from(d.min(base)), v + T::from(g.below(4)))
            }
            _ => {
                let mut m = 0u64;
                for _ in 0..g.range(1, 3) {
                    m |= 1 << g.below(if k == VarRange && i == 1 { 5 } else { 10 });
                }
                RangeConstraint::from_mask(m)
            }
        };
        let mut set = vec![];
        let top = rc.mask().try_into_u64().unwrap_or(0);
        let (lo, hi) = rc.range();
        let (lo, hi) = (int(lo), int(hi));
        if lo <= hi && hi - lo < 2000 {
            for x in lo..=hi {
                if member(&rc, T::from(x)) {
                    set.push(T::from(x));
                }
            }
        } else {
            return Ok(());
        }
        let _ = top;
        if set.is_empty() || set.len() > 16 {
            return Ok(());
        }
        sets.push(set);
        rcs.push(rc);
    }
    let bi = BusInteraction {
        bus_id: RangeConstraint::from_value(T::from(w.id(k))),
        multiplicity: RangeConstraint::from_value(*g.pick(&[T::one(), -T::one(), T::from(2)])),
        payload: rcs.clone(),
    };
    let mult = bi.multiplicity.try_to_single_value().unwrap();
    // all admitted payloads
    let mut admitted: Vec<Vec<T>> = vec![];
    let mut idx = vec![0; n];
    'outer: loop {
        let p: Vec<T> = idx.iter().zip(&sets).map(|(i, s)| s[*i]).collect();
        if w.admits(k, mult, &p) {
            admitted.push(p);
        }
        for j in 0..n {
            idx[j] += 1;
            if idx[j] < sets[j].len() {
                continue 'outer;
            }
            idx[j] = 0;
        }
        break;
    }
    let show = || format!("{k:?}, input ranges {:?}", rcs.iter().map(|r| r.to_string()).collect::<Vec<_>>());
    let r = catch(|| h.handle_bus_interaction_checked(bi.clone()))
        .map_err(|e| Failure::new("panic", format!("{e}: {}", show())))?;
    g.note(|| format!("{} -> {} admitted, {}", show(), admitted.len(), if r.is_ok() { "possible" } else { "impossible" }));
    match r {
        Err(_) => {
            g.label("impossible");
            g.nontrivial();
            ensure!(admitted.is_empty(), "declared-impossible", "admits {:?}: {}", admitted[0], show());
        }
        Ok(out) => {
            if admitted.is_empty() {
                g.label("impossible-not-noticed");
            } else {
                g.label("possible");
                g.nontrivial();
            }
            for p in &admitted {
                for (rc, v) in out.payload.iter().zip(p) {
                    ensure!(member(rc, *v), "payload-excluded", "{rc} excludes {v} of {p:?}: {}", show());
                }
            }
        }
    }
    Ok(())
}

/// Conversion to a memory access.
fn c16_memory<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let bus = g.below(4);
    let mem = g.below(4);
    let e = |g: &mut Gen| -> Ex<T> {
        match g.usize(3) {
            0 => Ex::V(Var(g.below(4) as u32)),
            1 => Ex::C(random_field(g)),
            _ => Ex::V(Var(g.below(4) as u32)) * Ex::C(T::from(g.below(300))) + Ex::C(random_field(g)),
        }
    };
    let mult = match g.usize(5) {
        0 | 1 => Ex::C(T::one()),
        2 | 3 => Ex::C(-T::one()),
        _ => {
            if g.bool() {
                Ex::V(Var(9))
            } else {
                Ex::C(T::from(g.pick(&[0u64, 2, 3]).to_owned()))
            }
        }
    };
    let asp = g.below(5);
    let addr = e(g);
    let n = g.range(1, 5);
    let data: Vec<Ex<T>> = (0..n).map(|_| e(g)).collect();
    let ts = e(g);
    let args: Vec<Ex<T>> = [Ex::C(T::from(asp)), addr.clone()]
        .into_iter()
        .chain(data.clone())
        .chain([ts.clone()])
        .collect();
    let bi = BusInteraction {
        bus_id: GE::<T>::from_number(T::from(bus)),
        multiplicity: mult.ge(),
        payload: args.iter().map(|a| a.ge()).collect(),
    };
    g.note(|| format!("{bi} (memory bus {mem})"));
    let r = OpenVmMemoryBusInteraction::try_from_bus_interaction(&bi, mem);
    match r {
        Ok(None) => ensure!(bus != mem, "memory-ignored", "{bi}"),
        Err(_) => {
            ensure!(bus == mem && mult != Ex::C(T::one()) && mult != Ex::C(-T::one()), "memory-refused", "{bi}")
        }
        Ok(Some(m)) => {
            g.nontrivial();
            ensure!(bus == mem, "memory-invented", "{bi}");
            let want = match &mult {
                Ex::C(c) if *c == T::one() => MemoryOp::SetNew,
                Ex::C(c) if *c == -T::one() => MemoryOp::GetPrevious,
                _ => return Err(Failure::new("memory-op", format!("{bi}"))),
            };
            ensure!(matches!((m.op(), want), (MemoryOp::SetNew, MemoryOp::SetNew) | (MemoryOp::GetPrevious, MemoryOp::GetPrevious)), "memory-op", "{bi}");
            ensure_eq!(m.data().to_vec(), data.iter().map(|d| d.ge()).collect::<Vec<_>>(), "memory-data", "{bi}");
            ensure_eq!(m.timestamp_limbs().to_vec(), vec![ts.ge()], "memory-timestamp", "{bi}");
            let a: Vec<GE<T>> = m.addr().into_iter().collect();
            ensure_eq!(a, vec![GE::from_number(T::from(asp)), addr.ge()], "memory-address", "{bi}");
        }
    }
    Ok(())
}

macro_rules! fields {
    ($name:ident, $f:ident) => {
        fn $name(g: &mut Gen) -> CaseResult {
            match g.usize(4) {
                0 | 1 => $f::<BabyBearField>(g),
                2 => $f::<KoalaBearField>(g),
                _ => $f::<GoldilocksField>(g),
            }
        }
    };
}
fields!(c16_h, c16_handler);
fields!(c16_i, c16_impossible);
fields!(c16_m, c16_memory);

// ---------------------------------------------------------------------------------------------
// C17

/// A small pool of variables with values; expressions are made to hit chosen values.
struct Env<T> {
    vals: Vec<T>,
}
impl<T: FieldElement> Env<T> {
    fn new(g: &mut Gen) -> Self {
        Env { vals: (0..5).map(|_| if g.bool() { T::from(interesting(g, 8)) } else { random_field(g) }).collect() }
    }
    fn at(&self, v: Var) -> T {
        self.vals[v.0 as usize]
    }
    /// An expression that evaluates to the value.
    fn expr(&mut self, g: &mut Gen, value: T) -> Ex<T> {
        match g.usize(6) {
            0 => Ex::C(value),
            1 | 2 => {
                self.vals.push(value);
                Ex::V(Var(self.vals.len() as u32 - 1))
            }
            3 | 4 => {
                let v = Var(g.usize(self.vals.len()) as u32);
                let f = T::from(1 + g.below(3));
                let e = Ex::V(v) * Ex::C(f);
                let d = value - e.eval(&|v| self.at(v));
                e + Ex::C(d)
            }
            _ => {
                let a = Ex::V(Var(g.usize(self.vals.len()) as u32));
                let b = Ex::V(Var(g.usize(self.vals.len()) as u32));
                let e = a * b;
                let d = value - e.eval(&|v| self.at(v));
                e + Ex::C(d)
            }
        }
    }
    /// Assignments near the current one.
    fn mutate(&self, g: &mut Gen) -> Vec<T> {
        let mut w = self.vals.clone();
        for _ in 0..g.range(1, 2) {
            let i = g.usize(w.len());
            w[i] = match g.usize(6) {
                0 => w[i] + T::one(),
                1 => w[i] - T::one(),
                2 => T::from(1u64 << g.below(30)),
                3 => T::from((1u64 << g.below(30)) - 1),
                4 => w[g.usize(w.len())],
                _ => random_field(g),
            };
        }
        w
    }
}

fn holds<T: FieldElement>(w: &World, bi: &BusInteraction<GE<T>>, at: &[T]) -> bool {
    let f = |v: &Var| at[v.0 as usize];
    let m = eval_ge(&bi.multiplicity, &f);
    if m.is_zero() {
        return true;
    }
    let k = w.kind(int(eval_ge(&bi.bus_id, &f))).unwrap();
    let p: Vec<T> = bi.payload.iter().map(|e| eval_ge(e, &f)).collect();
    w.admits(k, m, &p)
}
fn in_ranges<T: FieldElement>(rcs: &[(GE<T>, RangeConstraint<T>)], at: &[T]) -> bool {
    rcs.iter().all(|(e, rc)| member(rc, eval_ge(e, &|v: &Var| at[v.0 as usize])))
}

/// A lookup that holds at the environment or nearly so.
fn gen_lookup<T: FieldElement>(g: &mut Gen, w: &World, env: &mut Env<T>) -> BusInteraction<GE<T>> {
    let k = *g.pick(&[Bitwise, VarRange, Tuple]);
    let mut p: Vec<T> = w.payload(g, k);
    let same = k == Bitwise && g.chance(2, 5);
    if same {
        p[1] = p[0];
        p[2] = T::zero();
    }
    if g.chance(1, 3) {
        let i = g.usize(p.len());
        p[i] = match g.usize(5) {
            0 => p[i] + T::one(),
            1 => p[i] - T::one(),
            2 => T::from(256),
            3 => T::from(g.below(80)),
            _ => random_field(g),
        };
        if same {
            p[1] = p[0];
        }
    }
    let mut args: Vec<Ex<T>> = vec![];
    for (i, v) in p.iter().enumerate() {
        let constant = match (k, i) {
            (Bitwise, 3) => g.chance(3, 4),
            (Bitwise, 2) => g.chance(1, 2),
            (VarRange, 1) => g.chance(4, 5),
            _ => false,
        };
        if same && i == 1 {
            args.push(args[0].clone());
        } else if constant {
            args.push(Ex::C(*v));
        } else {
            args.push(env.expr(g, *v));
        }
    }
    BusInteraction {
        bus_id: GE::from_number(T::from(w.id(k))),
        multiplicity: GE::from_number(T::one()),
        payload: args.iter().map(|a| a.ge()).collect(),
    }
}

fn c17_extract<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let w = World::generate(g, false);
    let h = OpenVmBusInteractionHandler::<T>::new(w.map.clone());
    let mut env = Env::<T>::new(g);
    let bi = gen_lookup(g, &w, &mut env);
    g.note(|| format!("{bi}"));
    let Some(rcs) = h.pure_range_constraints(&bi) else {
        g.label("not-pure");
        return Ok(());
    };
    for round in 0..6 {
        let at = if round == 0 { env.vals.clone() } else { env.mutate(g) };
        let (a, b) = (holds(&w, &bi, &at), in_ranges(&rcs, &at));
        if a {
            g.label("admitted");
        } else {
            g.label("rejected");
            g.nontrivial();
        }
        ensure!(
            a == b,
            if a { "extraction-tightens" } else { "extraction-loosens" },
            "lookup {bi} is {a} but the extracted ranges {:?} are {b} at {at:?}",
            rcs.iter().map(|(e, r)| format!("{e}: {r}")).collect::<Vec<_>>()
        );
    }
    Ok(())
}

fn gen_range<T: FieldElement>(g: &mut Gen, w: &World) -> RangeConstraint<T> {
    match g.usize(10) {
        0..=3 => RangeConstraint::from_mask(0xffu64),
        4 => RangeConstraint::from_range(T::zero(), T::from(w.sizes[1] as u64 - 1)),
        5 | 6 => RangeConstraint::from_mask((1u64 << g.below(31)) - 1),
        7 => RangeConstraint::from_value(T::from(g.below(3))),
        8 => RangeConstraint::from_range(T::from(g.below(3)), T::from(g.range(3, 300) as u64)),
        _ => RangeConstraint::from_mask(g.u64() & 0xfff),
    }
}

fn c17_batch<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let w = World::generate(g, true);
    let h = OpenVmBusInteractionHandler::<T>::new(w.map.clone());
    let mut env = Env::<T>::new(g);
    let mut rcs: Vec<(GE<T>, RangeConstraint<T>)> = vec![];
    let simple = g.bool();
    for _ in 0..g.range(1, 7) {
        let rc = if simple {
            match g.usize(4) {
                0 => RangeConstraint::from_range(T::zero(), T::from(w.sizes[1] as u64 - 1)),
                1 => RangeConstraint::from_mask((1u64 << g.below(26)) - 1),
                _ => RangeConstraint::from_mask(0xffu64),
            }
        } else {
            gen_range(g, &w)
        };
        // a value at an end of the range, or just outside
        let (lo, hi) = rc.range();
        let mut v = match g.usize(4) {
            0 => lo,
            1 => hi,
            2 => T::from(int(lo) + g.below(int(hi).saturating_sub(int(lo)).max(1))),
            _ => T::zero(),
        };
        if g.chance(1, 6) {
            v += *g.pick(&[T::one(), -T::one(), T::from(256)]);
        }
        let e = if !rcs.is_empty() && g.chance(1, 6) {
            rcs[g.usize(rcs.len())].0.clone()
        } else {
            env.expr(g, v).ge()
        };
        rcs.push((e, rc));
    }
    let show = || rcs.iter().map(|(e, r)| format!("{e}: {r}")).collect::<Vec<_>>();
    g.note(|| format!("{:?}", show()));
    let Ok(lookups) = h.batch_make_range_constraints(rcs.clone()) else {
        g.label("refused");
        return Ok(());
    };
    g.nontrivial();
    for l in &lookups {
        ensure!(l.multiplicity.try_to_number() == Some(T::one()), "conditional", "{l}");
        let k = l.bus_id.try_to_number().and_then(|i| w.kind(int(i)));
        ensure!(matches!(k, Some(Bitwise | VarRange | Tuple)), "wrong-bus", "{l}");
    }
    for round in 0..6 {
        let at = if round == 0 { env.vals.clone() } else { env.mutate(g) };
        let a = in_ranges(&rcs, &at);
        let b = lookups.iter().all(|l| holds(&w, l, &at));
        if a { g.label("admitted") } else { g.label("rejected") }
        ensure!(
            a == b,
            if a { "batching-tightens" } else { "batching-loosens" },
            "requested {:?}: {a}; lookups {:?}: {b} at {at:?}",
            show(),
            lookups.iter().map(|l| l.to_string()).collect::<Vec<_>>()
        );
    }
    Ok(())
}

/// Lookups -> ranges -> lookups.
fn c17_roundtrip<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let w = World::generate(g, true);
    let h = OpenVmBusInteractionHandler::<T>::new(w.map.clone());
    let mut env = Env::<T>::new(g);
    let mut lookups = vec![];
    for _ in 0..g.range(1, 5) {
        lookups.push(gen_lookup(g, &w, &mut env));
    }
    let mut merged: Vec<(GE<T>, RangeConstraint<T>)> = vec![];
    let mut pure = vec![];
    for l in &lookups {
        if let Some(rcs) = h.pure_range_constraints(l) {
            pure.push(l.clone());
            for (e, rc) in rcs {
                match merged.iter_mut().find(|(f, _)| *f == e) {
                    Some((_, r)) => *r = r.conjunction(&rc),
                    None => merged.push((e, rc)),
                }
            }
        }
    }
    if pure.is_empty() {
        return Ok(());
    }
    g.nontrivial();
    let show = || pure.iter().map(|l| l.to_string()).collect::<Vec<_>>();
    g.note(|| format!("{:?}", show()));
    let back = h
        .batch_make_range_constraints(merged.clone())
        .map_err(|e| Failure::new("roundtrip-refused", format!("{e:?}: {:?}", show())))?;
    for round in 0..6 {
        let at = if round == 0 { env.vals.clone() } else { env.mutate(g) };
        let a = pure.iter().all(|l| holds(&w, l, &at));
        let b = back.iter().all(|l| holds(&w, l, &at));
        if a { g.label("admitted") } else { g.label("rejected") }
        ensure!(
            a == b,
            if a { "roundtrip-tightens" } else { "roundtrip-loosens" },
            "{:?}: {a}; after the round trip {:?}: {b} at {at:?}",
            show(),
            back.iter().map(|l| l.to_string()).collect::<Vec<_>>()
        );
    }
    Ok(())
}

/// The passes that use these lookups, on systems over the real fields.
fn c17_passes<T: FieldElement>(g: &mut Gen) -> CaseResult {
    let w = World::generate(g, true);
    let h = OpenVmBusInteractionHandler::<T>::new(w.map.clone());
    let mut env = Env::<T>::new(g);
    let mut sys: ConstraintSystem<T, Var> = Default::default();
    let n = g.range(1, 5);
    let mut tries = 0;
    while sys.bus_interactions.len() < n && tries < 20 {
        tries += 1;
        let mut l = gen_lookup(g, &w, &mut env);
        // The system needs a solution: the environment.
        if !holds(&w, &l, &env.vals) {
            continue;
        }
        if g.chance(1, 8) {
            let m = if g.bool() { T::zero() } else { T::one() };
            l.multiplicity = env.expr(g, m).ge();
        }
        sys.bus_interactions.push(l);
    }
    // algebraic facts that may make a check redundant
    for _ in 0..g.usize(3) {
        let v = Var(g.usize(env.vals.len()) as u32);
        let x = env.at(v);
        if g.bool() && (x.is_zero() || x.is_one()) {
            let e = Ex::V(v) * (Ex::V(v) - Ex::C(T::one()));
            sys.algebraic_constraints.push(AlgebraicConstraint::assert_zero(e.ge()));
        } else {
            let v2 = Var(g.usize(env.vals.len()) as u32);
            let f = T::from(1 + g.below(256));
            let e = Ex::V(v) - Ex::C(f) * Ex::V(v2);
            let d = e.eval(&|v| env.at(v));
            sys.algebraic_constraints.push(AlgebraicConstraint::assert_zero((e - Ex::C(d)).ge()));
        }
    }
    let bound = DegreeBound { identities: g.range(1, 4), bus_interactions: g.range(1, 3) };
    let show = |s: &ConstraintSystem<T, Var>| format!("{s}");
    g.note(|| show(&sys));
    let low_degree = g.chance(1, 4);
    let out = if low_degree {
        g.label("low-degree");
        let solver_h = h.clone();
        let mut solver = new_solver(sys.clone(), solver_h.clone());
        use powdr_constraint_solver::solver::Solver;
        solver.solve().map_err(|e| Failure::new("solver-error", format!("{e:?}")))?;
        for b in &sys.bus_interactions {
            for f in b.fields() {
                // not reachable in the optimizer (see DESIGN.md)
                if f.try_to_number().is_none()
                    && solver.range_constraint_for_expression(f).try_to_single_value().is_some()
                {
                    return Ok(());
                }
            }
        }
        let opt = LowDegreeBusInteractionOptimizer::new(&mut solver, solver_h, bound);
        opt.optimize(sys.clone())
    } else {
        g.label("range");
        optimize_range_constraints(sys.clone(), h.clone(), bound)
    };
    if out.bus_interactions != sys.bus_interactions {
        g.nontrivial();
    }
    let sat = |s: &ConstraintSystem<T, Var>, at: &[T]| {
        s.algebraic_constraints.iter().all(|c| eval_ge(&c.expression, &|v: &Var| at[v.0 as usize]).is_zero())
            && s.bus_interactions.iter().all(|l| holds(&w, l, at))
    };
    let vars: BTreeSet<u32> = (0..env.vals.len() as u32).collect();
    let _ = vars;
    for round in 0..8 {
        let at = if round == 0 { env.vals.clone() } else { env.mutate(g) };
        let a = sat(&sys, &at);
        let b = sat(&out, &at);
        if a { g.label("admitted") } else { g.label("rejected") }
        ensure!(
            a == b,
            if a { "pass-tightens" } else { "pass-loosens" },
            "{a} before, {b} after at {at:?}\nbefore:\n{}\nafter:\n{}",
            show(&sys),
            show(&out)
        );
    }
    Ok(())
}

fields!(c17_e, c17_extract);
fields!(c17_b, c17_batch);
fields!(c17_r, c17_roundtrip);
fields!(c17_p, c17_passes);

fn main() {
    run(vec![
        Property {
            id: "C16",
            rule: "the handler narrowed a range, or the ranges were enumerated completely",
            assumptions: &[
                "tables as documented in the bus models: bytes, variable range checker up to 25 bits, tuple sizes as configured",
                "memory holds bytes in address spaces 1 and 2 and zero in register 0 (the VM's own invariant)",
            ],
            subs: vec![
                Sub { name: "payload", f: c16_h, quick: 20_000_000, thorough: 400_000_000 },
                Sub { name: "impossible", f: c16_i, quick: 10_000_000, thorough: 200_000_000 },
                Sub { name: "memory-access", f: c16_m, quick: 300_000, thorough: 5_000_000 },
            ],
        },
        Property {
            id: "C17",
            rule: "extraction: an assignment is rejected; batching and round trip: the request was not refused; passes: the lookups changed",
            assumptions: &["first tuple size 256 and second a power of two up to 2^15 for batching (as the code asserts)", "interactions have multiplicity 1 where the interface says so"],
            subs: vec![
                Sub { name: "extract", f: c17_e, quick: 6_000_000, thorough: 200_000_000 },
                Sub { name: "batch", f: c17_b, quick: 6_000_000, thorough: 200_000_000 },
                Sub { name: "roundtrip", f: c17_r, quick: 4_000_000, thorough: 200_000_000 },
                Sub { name: "passes", f: c17_p, quick: 800_000, thorough: 40_000_000 },
            ],
        },
    ]);
}
