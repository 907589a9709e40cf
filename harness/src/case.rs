//! A path through a program of a generated instruction set, with executions of it.
use crate::circuit::*;
use crate::engine::Gen;
use crate::model::*;
use crate::vm::*;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_number::{FieldElement, LargeInt};
use std::collections::BTreeMap;

/// A block and executions of it.
pub struct Case<T> {
    pub vm: Vm<T>,
    /// (address, instruction), grouped by basic block
    pub blocks: Vec<Vec<(u64, Ins)>>,
    /// for every call, the rows of all instructions
    pub calls: Vec<Vec<Vec<T>>>,
    pub sys: Sys<T>,
    pub offsets: Vec<u32>,
}

pub fn value<T: FieldElement>(x: T) -> u64 {
    x.to_integer().try_into_u64().unwrap()
}

/// Generates an instruction set, a path through it and several executions of that path.
pub fn gen_case<T: FieldElement>(g: &mut Gen, kit: Kit, len: usize, cols: usize, calls: usize) -> Case<T> {
    let vm: Vm<T> = Vm::generate(g, kit.clone(), 3, cols, 3);
    let base = kit.pc_step * g.below(4);
    let p: u64 = T::modulus().try_into_u64().unwrap_or(u64::MAX);
    let start = |g: &mut Gen| State {
        pc: T::from(base),
        ts: if p < 1000 { T::from(g.below(p)) } else { T::from(10_000 + g.below(100_000)) },
        mem: BTreeMap::new(),
    };
    let mut st = start(g);
    let mut rows = vec![];
    let mut blocks: Vec<Vec<(u64, Ins)>> = vec![];
    for i in 0..len {
        let k = g.usize(vm.airs.len());
        let ins = vm.airs[k].instruction(g, &kit);
        let pc = value(st.pc);
        let next = |b: &Vec<(u64, Ins)>| b.last().unwrap().0 + kit.pc_step;
        match blocks.last_mut() {
            Some(b) if next(b) == pc => b.push((pc, ins.clone())),
            _ => blocks.push(vec![(pc, ins.clone())]),
        }
        let _ = i;
        rows.push(vm.airs[vm.air_of(ins.op)].execute(g, &kit, &ins, &mut st));
    }
    let code: Vec<(u64, Ins)> = blocks.concat();
    let mut all = vec![rows];
    for _ in 1..calls {
        let mut st = start(g);
        let mut rows = vec![];
        for (pc, ins) in &code {
            if st.pc != T::from(*pc) {
                break;
            }
            rows.push(vm.airs[vm.air_of(ins.op)].execute(g, &kit, ins, &mut st));
        }
        if rows.len() == code.len() {
            all.push(rows);
        }
    }
    let (sys, offsets) = vm.block_system(&code);
    Case { vm, blocks, calls: all, sys, offsets }
}

impl<T: FieldElement> Case<T> {
    pub fn witness(&self, call: usize) -> BTreeMap<Var, T> {
        let mut w = BTreeMap::new();
        for (off, row) in self.offsets.iter().zip(&self.calls[call]) {
            for (c, v) in row.iter().enumerate() {
                w.insert(Var(off + c as u32), *v);
            }
        }
        w
    }
    pub fn holds(&self, w: &BTreeMap<Var, T>, sem: &impl BusSem<T>) -> bool {
        let mut ix = Index::new();
        let c = CSys::of_sys(&self.sys, &mut ix);
        let w: Vec<T> = ix.vars.iter().map(|v| w[v]).collect();
        c.satisfied(&w, sem) && honest(&c, &w)
    }
    pub fn show(&self) -> String {
        format!("blocks {:?}\ncalls {:?}\nblock:\n{}", self.blocks, self.calls, self.sys)
    }
}

pub fn superblock<const S: u32>(blocks: &[Vec<(u64, Ins)>]) -> SuperBlock<StepIns<S>> {
    blocks
        .iter()
        .map(|b| BasicBlock {
            start_pc: b[0].0,
            instructions: b.iter().map(|(_, i)| StepIns(i.clone())).collect(),
        })
        .collect::<Vec<_>>()
        .into()
}

