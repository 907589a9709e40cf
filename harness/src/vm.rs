//! A small random VM: instruction AIRs generated from gadgets, with an executor that fills their rows.
use crate::circuit::{to_alg, TinyMem, PC};
use crate::engine::Gen;
use crate::model::*;
use crate::tiny::Fp;
use powdr_autoprecompiles::adapter::{Adapter, AdapterApc};
use powdr_autoprecompiles::blocks::{Instruction, PcStep, Program};
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution::ExecutionState;
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicMachine};
use powdr_autoprecompiles::{DegreeBound, InstructionHandler};
use powdr_number::{BabyBearField, FieldElement, LargeInt};
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::{self, Display};
use std::marker::PhantomData;
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// Instructions and programs

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Ins {
    pub op: usize,
    pub args: [u64; 3],
    pub branching: bool,
    pub allowed: bool,
    /// free data used by checks of the selection
    pub cost: u64,
    pub value: u64,
}
impl Ins {
    pub fn new(op: usize, args: [u64; 3]) -> Self {
        Ins { op, args, branching: false, allowed: true, cost: 1, value: 1 }
    }
}
impl Display for Ins {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "op{} {} {} {}", self.op, self.args[0], self.args[1], self.args[2])
    }
}

/// Instruction with a given distance of program counters.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct StepIns<const S: u32>(pub Ins);
impl<const S: u32> Display for StepIns<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<const S: u32> PcStep for StepIns<S> {
    fn pc_step() -> u32 {
        S
    }
}
impl<T: VmField, const S: u32> Instruction<T> for StepIns<S> {
    fn pc_lookup_row(&self, pc: u64) -> Vec<T> {
        let mut r = vec![T::of(pc), T::of(self.0.op as u64)];
        r.extend(self.0.args.iter().map(|a| T::of(*a)));
        r
    }
}

pub struct Prog<const S: u32> {
    pub base: u64,
    pub code: Vec<StepIns<S>>,
}
impl<const S: u32> Program<StepIns<S>> for Prog<S> {
    fn base_pc(&self) -> u64 {
        self.base
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = StepIns<S>> + '_> {
        Box::new(self.code.iter().cloned())
    }
    fn length(&self) -> u32 {
        self.code.len() as u32
    }
}

/// The field the VM itself uses (not powdr's).
pub trait VmField: Clone {
    fn of(v: u64) -> Self;
}
impl<const P: u32> VmField for Fp<P> {
    fn of(v: u64) -> Self {
        Fp((v % P as u64) as u32)
    }
}
/// BabyBear as the VM sees it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Baby(pub u32);
const BABY: u64 = 0x78000001;
impl VmField for Baby {
    fn of(v: u64) -> Self {
        Baby((v % BABY) as u32)
    }
}
impl Display for Baby {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

// ---------------------------------------------------------------------------------------------
// AIRs

/// Sizes and bus ids of a VM.
#[derive(Clone, Debug)]
pub struct Kit {
    pub exec: u64,
    pub mem: u64,
    pub pc: u64,
    pub varrange: u64,
    pub bitwise: u64,
    pub tuple: u64,
    pub tuple_bits: u64,
    pub bw: u32,
    pub ts_bits: u64,
    pub limbs: usize,
    pub pc_step: u64,
    /// base address of registers (register 0 is special in OpenVM)
    pub reg_step: u64,
    /// whether data decides if an access takes place
    pub data_mult: bool,
}
impl Kit {
    pub fn tiny(bw: u32) -> Kit {
        Kit {
            exec: EXEC,
            mem: MEM,
            pc: PC,
            varrange: VARRANGE,
            bitwise: BITWISE,
            tuple: TUPLE,
            tuple_bits: 1,
            bw,
            ts_bits: bw as u64 + 1,
            limbs: 1,
            pc_step: 1,
            reg_step: 1,
            data_mult: true,
        }
    }
    pub fn openvm(limbs: usize) -> Kit {
        Kit {
            exec: 0,
            mem: 1,
            pc: 2,
            varrange: 3,
            bitwise: 6,
            tuple: 7,
            tuple_bits: 11,
            bw: 8,
            ts_bits: 17,
            limbs,
            pc_step: 4,
            reg_step: 4,
            data_mult: true,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Fill<T> {
    /// value known from the instruction
    IsValid,
    Flag(usize),
    Pc,
    Ts,
    Arg(usize),
    PrevData(usize, usize),
    PrevTs(usize),
    /// value of an expression over earlier columns
    Expr(Ex<T>),
    AddMod(Ex<T>, Ex<T>),
    Xor(Ex<T>, Ex<T>),
    And(Ex<T>, Ex<T>),
    Lt(Ex<T>, Ex<T>),
    IsZero(Ex<T>),
    Inv(Ex<T>),
    /// low bits of the value
    Low(Ex<T>, u32),
    High(Ex<T>, u32),
    Nondet,
}

#[derive(Clone, Debug)]
pub struct Access<T> {
    pub space: u64,
    pub ptr: Ex<T>,
    pub offset: u64,
    pub mult: Ex<T>,
    /// columns of the previous data and time
    pub prev: Vec<Var>,
    pub prev_ts: Var,
    pub new: Vec<Ex<T>>,
    /// number of columns that exist when the access happens
    pub at: usize,
}

#[derive(Clone, Debug)]
pub struct Air<T> {
    pub names: Vec<String>,
    pub fills: Vec<Fill<T>>,
    pub sys: Sys<T>,
    pub accesses: Vec<Access<T>>,
    /// opcodes base..base + n
    pub base: usize,
    pub n: usize,
    pub next_pc: Ex<T>,
    pub ticks: u64,
    /// is the operand i a register, an immediate byte or ignored?
    pub arg_kinds: [u8; 3],
    pub branching: bool,
}

fn int<T: FieldElement>(v: T) -> u64 {
    v.to_integer().try_into_u64().unwrap()
}

pub struct AirBuilder<'a, T> {
    kit: &'a Kit,
    air: Air<T>,
    valid: Ex<T>,
    flags: Vec<Var>,
    /// boolean columns that depend on data (not forced to zero on unused rows)
    bits: Vec<Var>,
    pc: Var,
    ts: Var,
    args: [Var; 3],
    /// at most this many columns
    max_cols: usize,
}

impl<'a, T: FieldElement> AirBuilder<'a, T> {
    pub fn generate(g: &mut Gen, kit: &'a Kit, base: usize, max_cols: usize, size: usize) -> Air<T> {
        let n = g.weighted(&[3, 2, 2]) + 1;
        let mut b = AirBuilder {
            kit,
            air: Air {
                names: vec![],
                fills: vec![],
                sys: Sys::default(),
                accesses: vec![],
                base,
                n,
                next_pc: Ex::c(0),
                ticks: 0,
                arg_kinds: [0; 3],
                branching: false,
            },
            valid: Ex::c(0),
            flags: vec![],
            bits: vec![],
            pc: Var(0),
            ts: Var(0),
            args: [Var(0); 3],
            max_cols,
        };
        b.pc = b.col("pc", Fill::Pc);
        b.ts = b.col("ts", Fill::Ts);
        let mut opcode = Ex::c(base as u64);
        if n == 1 {
            let v = b.col("is_valid", Fill::IsValid);
            b.valid = Ex::V(v);
            b.boolean(v);
            if g.bool() {
                opcode = Ex::V(v) * opcode;
            }
        } else {
            let mut sum: Option<Ex<T>> = None;
            for i in 0..n {
                let v = b.col(&format!("flag{i}"), Fill::Flag(i));
                b.boolean(v);
                b.flags.push(v);
                sum = Some(match sum {
                    None => Ex::V(v),
                    Some(s) => s + Ex::V(v),
                });
                if i > 0 {
                    opcode = opcode + Ex::c(i as u64) * Ex::V(v);
                }
            }
            b.valid = sum.unwrap();
            if g.bool() {
                let v = b.valid.clone();
                b.air.sys.alg.push(v.clone() * (v - Ex::c(1)));
            }
        }
        for i in 0..3 {
            b.args[i] = b.col(["a", "b", "c"][i], Fill::Arg(i));
        }
        let pc_args = vec![Ex::V(b.pc), opcode, Ex::V(b.args[0]), Ex::V(b.args[1]), Ex::V(b.args[2])];
        if g.bool() {
            b.bus(kit.pc, b.valid.clone(), pc_args.clone());
            b.bus(kit.exec, -b.valid.clone(), vec![Ex::V(b.pc), Ex::V(b.ts)]);
        } else {
            b.bus(kit.exec, -b.valid.clone(), vec![Ex::V(b.pc), Ex::V(b.ts)]);
            b.bus(kit.pc, b.valid.clone(), pc_args.clone());
        }
        let mut vals: Vec<Ex<T>> = vec![];
        // reads
        let reads = g.usize(3);
        for i in 0..reads {
            // registers are named by operands b and c
            let ptr = Ex::V(b.args[1 + i]);
            b.air.arg_kinds[1 + i] = 1;
            let d = b.access(g, 1, ptr, None);
            vals.extend(d);
        }
        if reads < 2 && g.bool() {
            // immediate
            b.air.arg_kinds[2] = 2;
            vals.push(Ex::V(b.args[2]));
        }
        // load through a pointer
        if !vals.is_empty() && g.chance(1, 4) && b.room(3) {
            let mut p = vals[g.usize(vals.len())].clone();
            if g.bool() {
                p = p + Ex::c(g.below(3));
            }
            let d = b.access(g, 2, p, None);
            vals.extend(d);
        }
        let gadgets = g.usize(size + 1);
        for _ in 0..gadgets {
            if !b.room(3) {
                break;
            }
            let z = b.gadget(g, &vals);
            vals.push(z);
        }
        // store
        if !vals.is_empty() && g.chance(1, 5) && b.room(3) {
            let p = vals[g.usize(vals.len())].clone();
            let new = b.new_data(g, &vals);
            b.access(g, 2, p, Some(new));
        }
        // write back
        if g.chance(3, 4) {
            b.air.arg_kinds[0] = 1;
            let new = b.new_data(g, &vals);
            b.access(g, 1, Ex::V(b.args[0]), Some(new));
        }
        let step = kit.pc_step;
        let ticks = b.air.ticks.max(1);
        b.air.ticks = ticks;
        let mut next = Ex::V(b.pc) + Ex::c(step);
        if !vals.is_empty() && g.chance(1, 4) && b.room(2) {
            let x = vals[g.usize(vals.len())].clone();
            let f = b.is_zero(g, x);
            next = next + f * Ex::c(step * (1 + g.below(2)));
            b.air.branching = true;
        }
        if g.bool() && b.room(1) {
            // as a column
            let c = b.col("next_pc", Fill::Expr(next.clone()));
            b.air.sys.alg.push(Ex::V(c) - next.clone());
            next = Ex::V(c);
        }
        b.air.next_pc = next.clone();
        b.bus(kit.exec, b.valid.clone(), vec![next, Ex::V(b.ts) + Ex::c(ticks)]);
        // Memory and other interactions may come in any order around the execution ones
        b.air
    }
    fn room(&self, n: usize) -> bool {
        self.air.names.len() + n <= self.max_cols
    }
    fn col(&mut self, name: &str, fill: Fill<T>) -> Var {
        let v = Var(self.air.names.len() as u32);
        self.air.names.push(format!("{name}{}", v.0));
        self.air.fills.push(fill);
        v
    }
    fn bus(&mut self, id: u64, mult: Ex<T>, args: Vec<Ex<T>>) {
        self.air.sys.bus.push(Bus { id: Ex::c(id), mult, args });
    }
    fn boolean(&mut self, v: Var) {
        self.air.sys.alg.push(Ex::V(v) * (Ex::V(v) - Ex::c(1)));
    }
    fn byte_check(&mut self, g: &mut Gen, e: Ex<T>) {
        let k = self.kit;
        let m = if !self.bits.is_empty() && g.chance(1, 10) {
            Ex::V(self.bits[g.usize(self.bits.len())])
        } else {
            self.valid.clone()
        };
        match g.usize(4) {
            0 => self.bus(k.bitwise, m, vec![e.clone(), e, Ex::c(0), Ex::c(0)]),
            1 => self.bus(k.bitwise, m, vec![e, Ex::c(0), Ex::c(0), Ex::c(0)]),
            2 => self.bus(k.tuple, m, vec![e, Ex::c(0)]),
            _ => self.bus(k.varrange, m, vec![e, Ex::c(k.bw as u64)]),
        }
    }
    fn access(&mut self, g: &mut Gen, space: u64, ptr: Ex<T>, new: Option<Vec<Ex<T>>>) -> Vec<Ex<T>> {
        let k = self.kit;
        let offset = self.air.ticks;
        self.air.ticks += 1;
        let idx = self.air.accesses.len();
        let mult = if k.data_mult && !self.bits.is_empty() && g.chance(1, 4) {
            // depending on data
            Ex::V(self.bits[g.usize(self.bits.len())])
        } else if !self.flags.is_empty() && g.chance(1, 5) {
            // only for one of the opcodes
            Ex::V(self.flags[g.usize(self.flags.len())])
        } else {
            self.valid.clone()
        };
        let at = self.air.names.len();
        let prev: Vec<Var> = (0..k.limbs)
            .map(|i| self.col("prev", Fill::PrevData(idx, i)))
            .collect();
        let prev_ts = self.col("prev_ts", Fill::PrevTs(idx));
        let now = if offset == 0 { Ex::V(self.ts) } else { Ex::V(self.ts) + Ex::c(offset) };
        let mut args = vec![Ex::c(space), ptr.clone()];
        args.extend(prev.iter().map(|v| Ex::V(*v)));
        args.push(Ex::V(prev_ts));
        self.bus(k.mem, -mult.clone(), args);
        let gap = now.clone() - Ex::V(prev_ts) - Ex::c(1);
        if k.ts_bits > 8 && self.room(2) && g.bool() {
            let lo = self.col("ts_lo", Fill::Low(gap.clone(), 8));
            let hi = self.col("ts_hi", Fill::High(gap.clone(), 8));
            self.air.sys.alg.push(mult.clone() * (gap - Ex::V(lo) - Ex::c(256) * Ex::V(hi)));
            self.bus(k.varrange, self.valid.clone(), vec![Ex::V(lo), Ex::c(8)]);
            self.bus(k.varrange, self.valid.clone(), vec![Ex::V(hi), Ex::c(k.ts_bits - 8)]);
        } else {
            self.bus(k.varrange, mult.clone(), vec![gap, Ex::c(k.ts_bits)]);
        }
        let data: Vec<Ex<T>> = prev.iter().map(|v| Ex::V(*v)).collect();
        let out = new.unwrap_or_else(|| data.clone());
        let mut args = vec![Ex::c(space), ptr.clone()];
        args.extend(out.iter().cloned());
        args.push(now);
        self.bus(k.mem, mult.clone(), args);
        self.air.accesses.push(Access { space, ptr, offset, mult, prev, prev_ts, new: out, at });
        data
    }
    fn new_data(&mut self, g: &mut Gen, vals: &[Ex<T>]) -> Vec<Ex<T>> {
        (0..self.kit.limbs)
            .map(|_| {
                if vals.is_empty() || g.chance(1, 6) {
                    Ex::c(g.below(1 << self.kit.bw))
                } else if g.chance(1, 5) && self.room(2) {
                    self.gadget(g, vals)
                } else {
                    vals[g.usize(vals.len())].clone()
                }
            })
            .collect()
    }
    fn is_zero(&mut self, g: &mut Gen, x: Ex<T>) -> Ex<T> {
        let z = self.col("zero", Fill::IsZero(x.clone()));
        let inv = self.col("inv", Fill::Inv(x.clone()));
        self.boolean(z);
        self.air.sys.alg.push(Ex::V(z) * x.clone());
        // holds on rows that are not used, too
        let rhs = if g.bool() { self.valid.clone() } else { Ex::c(1) };
        self.air.sys.alg.push(x * Ex::V(inv) + Ex::V(z) - rhs);
        Ex::V(z)
    }
    /// Computes a byte from bytes.
    fn gadget(&mut self, g: &mut Gen, vals: &[Ex<T>]) -> Ex<T> {
        let byte = 1u64 << self.kit.bw;
        let pick = |g: &mut Gen| -> Ex<T> {
            if vals.is_empty() || g.chance(1, 5) {
                Ex::c(g.below(byte))
            } else {
                vals[g.usize(vals.len())].clone()
            }
        };
        let x = pick(g);
        let y = pick(g);
        let valid = self.valid.clone();
        let kit_bitwise = self.kit.bitwise;
        match g.weighted(&[4, 4, 2, 3, 2, 2, 2, 2]) {
            0 => {
                let z = self.col("sum", Fill::AddMod(x.clone(), y.clone()));
                self.byte_check(g, Ex::V(z));
                let d = x + y - Ex::V(z);
                self.air.sys.alg.push(valid_if(g, &valid, d.clone() * (d - Ex::c(byte))));
                Ex::V(z)
            }
            1 => {
                let z = self.col("xor", Fill::Xor(x.clone(), y.clone()));
                self.bus(kit_bitwise, valid, vec![x, y, Ex::V(z), Ex::c(1)]);
                Ex::V(z)
            }
            2 => {
                let z = self.col("and", Fill::And(x.clone(), y.clone()));
                let e = x.clone() + y.clone() - Ex::c(2) * Ex::V(z);
                self.bus(kit_bitwise, valid, vec![x, y, e, Ex::c(1)]);
                Ex::V(z)
            }
            3 => {
                let f = self.col("lt", Fill::Lt(x.clone(), y.clone()));
                self.boolean(f);
                let e = x - y + Ex::c(byte) * Ex::V(f);
                self.byte_check(g, e);
                self.bits.push(f);
                Ex::V(f)
            }
            4 => self.is_zero(g, x - y),
            5 if !self.flags.is_empty() => {
                // depends on the opcode
                let f = self.flags[g.usize(self.flags.len())];
                let e = Ex::V(f) * x + (Ex::c(1) - Ex::V(f)) * y;
                if g.bool() {
                    let z = self.col("sel", Fill::Expr(e.clone()));
                    self.air.sys.alg.push(Ex::V(z) - e);
                    Ex::V(z)
                } else {
                    e
                }
            }
            6 => {
                let z = self.col("nondet", Fill::Nondet);
                self.byte_check(g, Ex::V(z));
                Ex::V(z)
            }
            _ => {
                // copy
                let z = self.col("copy", Fill::Expr(x.clone()));
                self.air.sys.alg.push(Ex::V(z) - x);
                Ex::V(z)
            }
        }
    }
}

fn valid_if<T: FieldElement>(g: &mut Gen, _valid: &Ex<T>, e: Ex<T>) -> Ex<T> {
    let _ = g;
    e
}

/// State of the VM between instructions.
#[derive(Clone, Debug)]
pub struct State<T> {
    pub pc: T,
    pub ts: T,
    pub mem: BTreeMap<(u64, T), (Vec<T>, T)>,
}

impl<T: FieldElement> Air<T> {
    /// Executes an instruction; the row of the AIR.
    pub fn execute(&self, g: &mut Gen, kit: &Kit, ins: &Ins, st: &mut State<T>) -> Vec<T> {
        let byte = 1u64 << kit.bw;
        let mut row: Vec<T> = vec![];
        let mut done = 0;
        // (previous data, time) of the accesses so far
        let mut prev: Vec<(Vec<T>, T)> = vec![];
        let start = st.ts;
        for (i, f) in self.fills.iter().enumerate() {
            let ev = |e: &Ex<T>| e.eval(&|v: Var| row[v.0 as usize]);
            let ei = |e: &Ex<T>| int(ev(e));
            // an access starts here
            if done < self.accesses.len() && self.accesses[done].at == i {
                if done > 0 {
                    Self::commit(&self.accesses[done - 1], &row, start, st);
                }
                let a = &self.accesses[done];
                let now = start + T::from(a.offset);
                let key = (a.space, a.ptr.eval(&|v: Var| row[v.0 as usize]));
                let active = !a.mult.eval(&|v: Var| row[v.0 as usize]).is_zero();
                let p = match st.mem.get(&key) {
                    Some(p) => p.clone(),
                    None => {
                        let zero = kit.reg_step == 4 && a.space == 1 && key.1.is_zero();
                        let d = (0..kit.limbs)
                            .map(|_| if zero { T::zero() } else { T::from(g.below(byte)) })
                            .collect();
                        let gap = 1 + g.below((1u64 << kit.ts_bits).min(2000));
                        let p = (d, now - T::from(gap));
                        if active {
                            st.mem.insert(key, p.clone());
                        }
                        p
                    }
                };
                prev.push(p);
                done += 1;
            }
            let v = match f {
                Fill::IsValid => T::one(),
                Fill::Flag(k) => T::from((ins.op - self.base == *k) as u64),
                Fill::Pc => st.pc,
                Fill::Ts => start,
                Fill::Arg(k) => T::from(ins.args[*k]),
                Fill::PrevData(a, l) => prev[*a].0[*l],
                Fill::PrevTs(a) => prev[*a].1,
                Fill::Expr(e) => ev(e),
                Fill::AddMod(x, y) => T::from((ei(x) + ei(y)) % byte),
                Fill::Xor(x, y) => T::from(ei(x) ^ ei(y)),
                Fill::And(x, y) => T::from(ei(x) & ei(y)),
                Fill::Lt(x, y) => T::from((ei(x) < ei(y)) as u64),
                Fill::IsZero(x) => T::from(ev(x).is_zero() as u64),
                Fill::Inv(x) => {
                    let x = ev(x);
                    if x.is_zero() { T::zero() } else { T::one() / x }
                }
                Fill::Low(x, n) => T::from(ei(x) & ((1 << n) - 1)),
                Fill::High(x, n) => T::from(ei(x) >> n),
                Fill::Nondet => T::from(g.below(byte)),
            };
            row.push(v);
        }
        if let Some(a) = self.accesses.last() {
            Self::commit(a, &row, start, st);
        }
        st.pc = self.next_pc.eval(&|v: Var| row[v.0 as usize]);
        st.ts = start + T::from(self.ticks);
        row
    }
    fn commit(a: &Access<T>, row: &[T], start: T, st: &mut State<T>) {
        let ev = |e: &Ex<T>| e.eval(&|v: Var| row[v.0 as usize]);
        if ev(&a.mult).is_zero() {
            return;
        }
        st.mem.insert(
            (a.space, ev(&a.ptr)),
            (a.new.iter().map(ev).collect(), start + T::from(a.offset)),
        );
    }
    pub fn machine(&self) -> SymbolicMachine<T> {
        let rename = |e: &Ex<T>| {
            let mut a = to_alg(e);
            use powdr_expression::visitors::ExpressionVisitable;
            a.pre_visit_expressions_mut(&mut |x| {
                if let powdr_autoprecompiles::expression::AlgebraicExpression::Reference(r) = x {
                    *r = AlgebraicReference {
                        name: Arc::new(self.names[r.id as usize].clone()),
                        id: r.id,
                    };
                }
            });
            a
        };
        SymbolicMachine {
            constraints: self.sys.alg.iter().map(|e| rename(e).into()).collect(),
            bus_interactions: self
                .sys
                .bus
                .iter()
                .map(|b| SymbolicBusInteraction {
                    id: match &b.id {
                        Ex::C(c) => int(*c),
                        _ => unreachable!(),
                    },
                    mult: rename(&b.mult),
                    args: b.args.iter().map(rename).collect(),
                })
                .collect(),
            derived_columns: vec![],
        }
    }
    /// Instruction for one of the opcodes with suitable operands.
    pub fn instruction(&self, g: &mut Gen, kit: &Kit) -> Ins {
        let op = self.base + g.usize(self.n);
        let mut args = [0; 3];
        for (i, a) in args.iter_mut().enumerate() {
            *a = match self.arg_kinds[i] {
                1 => {
                    // the destination is never register 0 in OpenVM
                    let lo = (i == 0 && kit.reg_step == 4) as u64;
                    kit.reg_step * (lo + g.below(3))
                }
                2 => g.below(1 << kit.bw),
                _ => g.below(3),
            };
        }
        let mut ins = Ins::new(op, args);
        ins.branching = self.branching;
        ins
    }
}

fn shift<T: FieldElement>(e: &Ex<T>, by: u32) -> Ex<T> {
    match e {
        Ex::C(c) => Ex::C(*c),
        Ex::V(v) => Ex::V(Var(v.0 + by)),
        Ex::Add(a, b) => shift(a, by) + shift(b, by),
        Ex::Sub(a, b) => shift(a, by) - shift(b, by),
        Ex::Mul(a, b) => shift(a, by) * shift(b, by),
        Ex::Neg(a) => -shift(a, by),
    }
}

/// A VM: a set of AIRs.
pub struct Vm<T> {
    pub kit: Kit,
    pub airs: Vec<Air<T>>,
}
impl<T: FieldElement> Vm<T> {
    pub fn generate(g: &mut Gen, kit: Kit, max_airs: usize, max_cols: usize, size: usize) -> Self {
        let n = g.range(1, max_airs);
        let mut base = 1;
        let mut airs = vec![];
        for _ in 0..n {
            let a = AirBuilder::generate(g, &kit, base, max_cols, size);
            base += a.n;
            airs.push(a);
        }
        Vm { kit, airs }
    }
    pub fn air_of(&self, op: usize) -> usize {
        self.airs.iter().position(|a| a.base <= op && op < a.base + a.n).unwrap()
    }
    /// The block as one system: variable ids are offsets[i] + column.
    pub fn block_system(&self, code: &[(u64, Ins)]) -> (Sys<T>, Vec<u32>) {
        let mut sys = Sys::default();
        let mut offsets = vec![];
        let mut off = 0;
        for (pc, ins) in code {
            let air = &self.airs[self.air_of(ins.op)];
            offsets.push(off);
            for b in &air.sys.bus {
                let b = Bus {
                    id: b.id.clone(),
                    mult: shift(&b.mult, off),
                    args: b.args.iter().map(|a| shift(a, off)).collect(),
                };
                if b.id == Ex::c(self.kit.pc) {
                    let row = [*pc, ins.op as u64, ins.args[0], ins.args[1], ins.args[2]];
                    for (a, r) in b.args.iter().zip(row) {
                        sys.alg.push(a.clone() - Ex::c(r));
                    }
                    // the row is used
                    sys.alg.push(b.mult.clone() - Ex::c(1));
                }
                sys.bus.push(b);
            }
            for e in &air.sys.alg {
                sys.alg.push(shift(e, off));
            }
            off += air.names.len() as u32;
        }
        (sys, offsets)
    }
}

// ---------------------------------------------------------------------------------------------
// Instruction handlers and adapters

pub struct Handler<F, const S: u32> {
    pub machines: Vec<SymbolicMachine<F>>,
    pub air_of_op: BTreeMap<usize, usize>,
    pub bound: DegreeBound,
}
impl<F, const S: u32> InstructionHandler for Handler<F, S> {
    type Field = F;
    type Instruction = StepIns<S>;
    type AirId = usize;
    fn degree_bound(&self) -> DegreeBound {
        self.bound
    }
    fn get_instruction_air_and_id(&self, i: &StepIns<S>) -> (usize, &SymbolicMachine<F>) {
        let id = self.air_of_op[&i.0.op];
        (id, &self.machines[id])
    }
    fn get_instruction_air_stats(&self, i: &StepIns<S>) -> AirStats {
        AirStats::new(&self.machines[self.air_of_op[&i.0.op]])
    }
}

pub fn handler<T: FieldElement, F, const S: u32>(
    vm: &Vm<T>,
    conv: &impl Fn(T) -> F,
    bound: DegreeBound,
) -> Handler<F, S> {
    let mut air_of_op = BTreeMap::new();
    for (i, a) in vm.airs.iter().enumerate() {
        for o in a.base..a.base + a.n {
            air_of_op.insert(o, i);
        }
    }
    Handler {
        machines: vm
            .airs
            .iter()
            .map(|a| {
                powdr_autoprecompiles::symbolic_machine_generator::convert_machine_field_type(
                    a.machine(),
                    conv,
                )
            })
            .collect(),
        air_of_op,
        bound,
    }
}

/// Registers and pc at one step.
#[derive(Clone, Debug)]
pub struct SimState {
    pub pc: u64,
    pub regs: Vec<u64>,
    pub clk: usize,
}
impl ExecutionState for SimState {
    type RegisterAddress = u8;
    type Value = u64;
    fn pc(&self) -> u64 {
        self.pc
    }
    fn value_limb(value: u64, limb_index: usize) -> u64 {
        value >> (8 * limb_index) & 0xff
    }
    fn reg(&self, a: &u8) -> u64 {
        self.regs[*a as usize]
    }
    fn global_clk(&self) -> usize {
        self.clk
    }
}

pub struct TinyAdapter<const P: u32>;
impl<const P: u32> Adapter for TinyAdapter<P> {
    type Field = Fp<P>;
    type PowdrField = Fp<P>;
    type InstructionHandler = Handler<Fp<P>, 1>;
    type BusInteractionHandler = TinyBuses<Fp<P>>;
    type Program = Prog<1>;
    type Instruction = StepIns<1>;
    type MemoryBusInteraction<V: Ord + Clone + Eq + Display + std::hash::Hash> = TinyMem<Fp<P>, V>;
    type CustomBusTypes = String;
    type ApcStats = ();
    type AirId = usize;
    type ExecutionState = SimState;
    fn into_field(e: Fp<P>) -> Fp<P> {
        e
    }
    fn from_field(e: Fp<P>) -> Fp<P> {
        e
    }
    fn apc_stats(_: Arc<AdapterApc<Self>>, _: &Self::InstructionHandler) {}
    fn is_branching(i: &StepIns<1>) -> bool {
        i.0.branching
    }
    fn is_allowed(i: &StepIns<1>) -> bool {
        i.0.allowed
    }
}

pub struct BabyAdapter;
impl Adapter for BabyAdapter {
    type Field = Baby;
    type PowdrField = BabyBearField;
    type InstructionHandler = Handler<Baby, 4>;
    type BusInteractionHandler = OpenVmBusInteractionHandler<BabyBearField>;
    type Program = Prog<4>;
    type Instruction = StepIns<4>;
    type MemoryBusInteraction<V: Ord + Clone + Eq + Display + std::hash::Hash> =
        OpenVmMemoryBusInteraction<BabyBearField, V>;
    type CustomBusTypes = OpenVmBusType;
    type ApcStats = ();
    type AirId = usize;
    type ExecutionState = SimState;
    fn into_field(e: BabyBearField) -> Baby {
        Baby(int(e) as u32)
    }
    fn from_field(e: Baby) -> BabyBearField {
        BabyBearField::from(e.0)
    }
    fn apc_stats(_: Arc<AdapterApc<Self>>, _: &Self::InstructionHandler) {}
    fn is_branching(i: &StepIns<4>) -> bool {
        i.0.branching
    }
    fn is_allowed(i: &StepIns<4>) -> bool {
        i.0.allowed
    }
}

pub fn tiny_bus_map() -> BusMap<String> {
    BusMap::from_id_type_pairs([
        (EXEC, BusType::ExecutionBridge),
        (MEM, BusType::Memory),
        (RANGE, BusType::Other("range".to_string())),
        (VARRANGE, BusType::Other("varrange".to_string())),
        (BITWISE, BusType::Other("bitwise".to_string())),
        (TUPLE, BusType::Other("tuple".to_string())),
        (FREE, BusType::Other("free".to_string())),
        (PC, BusType::PcLookup),
    ])
}
pub fn baby_bus_map() -> BusMap<OpenVmBusType> {
    default_openvm_bus_map()
}

/// Tables of the OpenVM buses.
pub struct OpenVmSem<T>(pub PhantomData<T>);
impl<T: FieldElement> BusSem<T> for OpenVmSem<T> {
    fn allowed(&self, bus: T, mult: T, p: &[T]) -> bool {
        let v = |i: usize| int(p[i]);
        match int(bus) {
            6 => {
                v(0) < 256
                    && v(1) < 256
                    && match v(3) {
                        0 => v(2) == 0,
                        1 => v(2) == v(0) ^ v(1),
                        _ => false,
                    }
            }
            3 => v(1) <= 25 && v(0) < 1 << v(1),
            7 => v(0) < 256 && v(1) < 2048,
            1 if mult == -T::one() => match v(0) {
                1 if v(1) == 0 => p[2..p.len() - 1].iter().all(|d| d.is_zero()),
                1 | 2 => p[2..p.len() - 1].iter().all(|d| int(*d) < 256),
                _ => true,
            },
            _ => true,
        }
    }
    fn stateful(&self, bus: T) -> bool {
        matches!(int(bus), 0 | 1)
    }
}
