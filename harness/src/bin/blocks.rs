//! C20, C21, C22: basic blocks, superblocks and their selection.
use powdr_autoprecompiles::adapter::{Adapter, AdapterApcWithStats, AdapterVmConfig, PgoAdapter};
use powdr_autoprecompiles::blocks::{
    collect_basic_blocks, detect_superblocks, BasicBlock, ExecutionBlocks, Program, SuperBlock,
};
use powdr_autoprecompiles::execution_profile::{execution_profile, ExecutionProfile};
use powdr_autoprecompiles::pgo::{ApcCandidate, CellPgo, InstructionPgo, NonePgo};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicMachine};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::{DegreeBound, PowdrConfig, VmConfig};
use powdr_verif_harness::circuit::to_alg;
use powdr_verif_harness::engine::{catch, main as run, CaseResult, Failure, Gen, Property, Sub};
use powdr_verif_harness::model::{Ex, TinyBuses, Var};
use powdr_verif_harness::tiny::Fp;
use powdr_verif_harness::vm::*;
use powdr_verif_harness::{ensure, ensure_eq};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------------------------------------
// Programs

fn gen_code<const S: u32>(g: &mut Gen, max: usize, dense: bool) -> Prog<S> {
    let n = if dense { g.range(max / 2, max) } else { g.usize(max + 1) };
    let base = match g.usize(4) {
        0 => 0,
        1 => g.below(50),
        2 => (1 << 32) - S as u64 * g.below(20),
        _ => 0x20_0000,
    };
    let (bn, bd) = *g.pick(&[(1, 4), (1, 10), (1, 2), (0, 1)]);
    let (an, ad) = *g.pick(&[(1, 8), (1, 3), (0, 1)]);
    // mostly blocks that can be compiled
    let (bn, bd, an, ad) = if dense { (1, 4, an, 3 * ad) } else { (bn, bd, an, ad) };
    let code = (0..n)
        .map(|i| {
            let mut ins = Ins::new(1, [i as u64, g.below(4), 0]);
            ins.branching = g.chance(bn, bd);
            ins.allowed = !g.chance(an, ad);
            ins.cost = 1 + g.below(4);
            ins.value = g.below(5);
            StepIns(ins)
        })
        .collect();
    Prog { base, code }
}

fn gen_targets<const S: u32>(g: &mut Gen, p: &Prog<S>) -> BTreeSet<u64> {
    let mut t = BTreeSet::new();
    let k = g.usize(p.code.len() / 2 + 3);
    for _ in 0..k {
        let pc = p.base + S as u64 * g.below(p.code.len() as u64 + 2);
        // in rare cases not the address of an instruction
        t.insert(match g.usize(12) {
            0 => pc + g.below(4),
            1 => g.below(1 << 33),
            _ => pc,
        });
    }
    t
}

/// Start indices of the blocks.
fn starts<const S: u32>(p: &Prog<S>, targets: &BTreeSet<u64>) -> Vec<usize> {
    let alone = |i: usize| !p.code[i].0.allowed;
    (0..p.code.len())
        .filter(|&i| {
            i == 0
                || targets.contains(&(p.base + S as u64 * i as u64))
                || alone(i)
                || alone(i - 1)
                || p.code[i - 1].0.branching
        })
        .collect()
}

fn show_prog<const S: u32>(p: &Prog<S>, t: &BTreeSet<u64>) -> String {
    format!(
        "base {} step {S} targets {t:?} code {}",
        p.base,
        p.code
            .iter()
            .map(|i| match (i.0.branching, i.0.allowed) {
                (_, false) => 'X',
                (true, _) => 'B',
                _ => '.',
            })
            .collect::<String>()
    )
}

fn c20<A, const S: u32>(g: &mut Gen) -> CaseResult
where
    A: Adapter<Program = Prog<S>, Instruction = StepIns<S>>,
{
    let max = if g.chance(1, 20) { 200 } else { 14 };
    let p = gen_code::<S>(g, max, false);
    let t = gen_targets(g, &p);
    g.note(|| show_prog(&p, &t));
    let blocks = catch(|| collect_basic_blocks::<A>(&p, &t)).map_err(|e| Failure::new("panic", e))?;
    let st = starts(&p, &t);
    if st.len() > 1 && st.len() < p.code.len() {
        g.nontrivial();
    }
    let got: Vec<(u64, Vec<StepIns<S>>)> =
        blocks.iter().map(|b| (b.start_pc, b.instructions.clone())).collect();
    let addr = |i: usize| p.base + S as u64 * i as u64;
    let want: Vec<(u64, Vec<StepIns<S>>)> = st
        .iter()
        .enumerate()
        .map(|(k, &i)| {
            let end = st.get(k + 1).copied().unwrap_or(p.code.len());
            (addr(i), p.code[i..end].to_vec())
        })
        .collect();
    let brief = |v: &Vec<(u64, Vec<StepIns<S>>)>| {
        v.iter().map(|(s, b)| format!("{s}+{}", b.len())).collect::<Vec<_>>().join(" ")
    };
    ensure!(
        got == want,
        "partition",
        "{}\nexpected {}\ngot      {}",
        show_prog(&p, &t),
        brief(&want),
        brief(&got)
    );
    ensure_eq!(p.instruction_index_to_pc(p.code.len()), addr(p.code.len()), "index-to-pc");
    // addresses of the instructions
    let mut i = 0;
    for b in &blocks {
        let pcs: Vec<u64> = b.pcs().collect();
        let with: Vec<(u64, StepIns<S>)> = b.instructions().map(|(a, x)| (a, x.clone())).collect();
        let want: Vec<(u64, StepIns<S>)> =
            (i..i + b.instructions.len()).map(|j| (addr(j), p.code[j].clone())).collect();
        ensure_eq!(pcs, want.iter().map(|x| x.0).collect::<Vec<_>>(), "pcs");
        ensure!(with == want, "instructions", "addresses of {}", b.start_pc);
        i += b.instructions.len();
    }
    // any sequence of blocks as a superblock
    if !blocks.is_empty() {
        let seq: Vec<usize> = (0..g.range(1, 5)).map(|_| g.usize(blocks.len())).collect();
        let sb = SuperBlock::from(seq.iter().map(|i| blocks[*i].clone()).collect::<Vec<_>>());
        let mut flat = vec![];
        let mut idx = vec![];
        for i in &seq {
            idx.push((flat.len(), want[*i].0));
            for (k, x) in want[*i].1.iter().enumerate() {
                flat.push((want[*i].0 + S as u64 * k as u64, x.clone()));
            }
        }
        ensure_eq!(sb.start_pcs(), seq.iter().map(|i| want[*i].0).collect::<Vec<_>>(), "sb-start-pcs");
        ensure_eq!(sb.instruction_indexed_start_pcs(), idx, "sb-indexed-start-pcs");
        ensure_eq!(sb.pcs().collect::<Vec<_>>(), flat.iter().map(|x| x.0).collect::<Vec<_>>(), "sb-pcs");
        let ins: Vec<(u64, StepIns<S>)> = sb.instructions().map(|(a, x)| (a, x.clone())).collect();
        ensure!(ins == flat, "sb-instructions", "{ins:?}\n{flat:?}");
        if g.chance(1, 8) {
            let par: Vec<(usize, u64, StepIns<S>)> = sb
                .par_instructions()
                .enumerate()
                .map(|(i, (a, x))| (i, a, x.clone()))
                .collect();
            ensure!(
                par.iter().enumerate().all(|(k, (i, a, x))| k == *i && (*a, x.clone()) == flat[k])
                    && par.len() == flat.len(),
                "sb-par-instructions",
                "{par:?}"
            );
        }
        ensure_eq!(sb.is_basic_block(), seq.len() == 1, "sb-is-basic");
        ensure_eq!(
            sb.try_as_basic_block().map(|b| b.start_pc),
            (seq.len() == 1).then(|| want[seq[0]].0),
            "sb-as-basic"
        );
        let mapped = sb.clone().map_instructions(|StepIns(mut i): StepIns<S>| {
            i.op += 7;
            StepIns::<S>(i)
        });
        ensure_eq!(mapped.start_pcs(), sb.start_pcs(), "sb-map");
        ensure!(
            mapped.instructions().map(|(a, x)| (a, x.0.op - 7, x.0.args)).collect::<Vec<_>>()
                == flat.iter().map(|(a, x)| (*a, x.0.op, x.0.args)).collect::<Vec<_>>(),
            "sb-map",
            "{mapped:?}"
        );
    }
    Ok(())
}

fn c20_any(g: &mut Gen) -> CaseResult {
    if g.bool() {
        c20::<TinyAdapter<13>, 1>(g)
    } else {
        c20::<BabyAdapter, 4>(g)
    }
}

// ---------------------------------------------------------------------------------------------
// Executions

struct Exec<const S: u32> {
    prog: Prog<S>,
    targets: BTreeSet<u64>,
    /// (start index, length)
    blocks: Vec<(usize, usize)>,
    /// sequence of blocks
    walk: Vec<usize>,
    cfg: PowdrConfig,
}

fn bound() -> DegreeBound {
    DegreeBound { identities: 3, bus_interactions: 2 }
}

impl<const S: u32> Exec<S> {
    fn generate(g: &mut Gen, max_code: usize, max_walk: usize, dense: bool) -> Option<Self> {
        let prog = gen_code::<S>(g, max_code, dense);
        if prog.code.is_empty() {
            return None;
        }
        let targets = gen_targets(g, &prog);
        let st = starts(&prog, &targets);
        let blocks: Vec<(usize, usize)> = st
            .iter()
            .enumerate()
            .map(|(k, &i)| (i, st.get(k + 1).copied().unwrap_or(prog.code.len()) - i))
            .collect();
        // mostly loops over a few blocks
        let mut walk: Vec<usize> = vec![];
        let pieces = g.usize(7) + dense as usize;
        let few = g.range(1, blocks.len().min(5));
        let hot: Vec<usize> = (0..few).map(|_| g.usize(blocks.len())).collect();
        for _ in 0..pieces {
            let len = g.range(1, 5);
            let seq: Vec<usize> = (0..len)
                .map(|_| if g.chance(4, 5) { *g.pick(&hot) } else { g.usize(blocks.len()) })
                .collect();
            for _ in 0..g.range(1, 6) {
                walk.extend(&seq);
            }
        }
        walk.truncate(max_walk);
        let mut cfg = PowdrConfig::new(g.below(6) + dense as u64, g.below(3), bound());
        if g.chance(4, 5) {
            let max = 1 + g.below(5) as u8;
            let max_ins = g.bool().then(|| g.below(12) as u32);
            let cutoff = g.bool().then(|| g.below(5) as u32);
            cfg = cfg.with_superblocks(max, max_ins, cutoff);
        }
        Some(Exec { prog, targets, blocks, walk, cfg })
    }
    fn start(&self, b: usize) -> u64 {
        self.prog.base + S as u64 * self.blocks[b].0 as u64
    }
    fn pc_list(&self) -> Vec<u64> {
        self.walk
            .iter()
            .flat_map(|b| (0..self.blocks[*b].1).map(|k| self.start(*b) + S as u64 * k as u64))
            .collect()
    }
    /// Maximal sequences of blocks with at least two instructions.
    fn runs(&self) -> Vec<Vec<usize>> {
        self.walk
            .split(|b| self.blocks[*b].1 < 2)
            .filter(|r| !r.is_empty())
            .map(|r| r.to_vec())
            .collect()
    }
    fn show(&self) -> String {
        format!(
            "{} blocks(start+len) {} walk {:?} max blocks {} max instructions {} cutoff {} apcs {} skip {}",
            show_prog(&self.prog, &self.targets),
            self.blocks
                .iter()
                .enumerate()
                .map(|(i, b)| format!("{}+{}", self.start(i), b.1))
                .collect::<Vec<_>>()
                .join(" "),
            self.walk.iter().map(|b| self.start(*b)).collect::<Vec<_>>(),
            self.cfg.superblock_max_bb_count,
            self.cfg.apc_max_instructions,
            self.cfg.apc_exec_count_cutoff,
            self.cfg.autoprecompiles,
            self.cfg.skip_autoprecompiles,
        )
    }
    fn basic_blocks(&self, g: &mut Gen) -> Vec<BasicBlock<StepIns<S>>> {
        let mut v: Vec<_> = self
            .blocks
            .iter()
            .enumerate()
            .map(|(i, b)| BasicBlock {
                start_pc: self.start(i),
                instructions: self.prog.code[b.0..b.0 + b.1].to_vec(),
            })
            .collect();
        // in no particular order
        if g.bool() {
            g.shuffle(&mut v);
        }
        v
    }
    /// Superblocks that occur, with the number of non-overlapping occurrences.
    fn expected(&self) -> BTreeMap<Vec<usize>, u32> {
        let runs = self.runs();
        let mut subs = BTreeSet::new();
        for r in &runs {
            for i in 0..r.len() {
                for j in i + 1..=r.len().min(i + self.cfg.superblock_max_bb_count as usize) {
                    subs.insert(r[i..j].to_vec());
                }
            }
        }
        subs.into_iter()
            .map(|s| {
                let c = runs.iter().map(|r| max_disjoint(r, &s)).sum();
                (s, c)
            })
            .filter(|(s, c)| {
                *c >= self.cfg.apc_exec_count_cutoff
                    && s.iter().map(|b| self.blocks[*b].1).sum::<usize>()
                        <= self.cfg.apc_max_instructions as usize
            })
            .collect()
    }
}

/// Largest number of disjoint occurrences (by dynamic programming).
fn max_disjoint(run: &[usize], s: &[usize]) -> u32 {
    let mut best = vec![0; run.len() + 1];
    for i in 0..run.len() {
        best[i + 1] = best[i + 1].max(best[i]);
        if run[i..].starts_with(s) {
            let e = i + s.len();
            best[e] = best[e].max(best[i] + 1);
        }
    }
    // carry over the tail
    let mut m = 0;
    for b in best {
        m = m.max(b);
    }
    m
}

fn c21<const S: u32>(g: &mut Gen) -> CaseResult {
    let dense = g.bool();
    let Some(e) = Exec::<S>::generate(g, 24, 120, dense) else { return Ok(()) };
    g.note(|| e.show());
    let bbs = e.basic_blocks(g);
    let list = e.pc_list();
    let r: ExecutionBlocks<StepIns<S>> =
        catch(|| detect_superblocks(&e.cfg, &list, bbs.clone())).map_err(|p| Failure::new("panic", format!("{p}\n{}", e.show())))?;
    let want = e.expected();
    if want.len() > 1 && want.values().any(|c| *c > 1) {
        g.nontrivial();
    }
    let want_pcs: BTreeMap<Vec<u64>, u32> = want
        .iter()
        .map(|(s, c)| (s.iter().map(|b| e.start(*b)).collect(), *c))
        .collect();
    let mut got = BTreeMap::new();
    for b in &r.blocks {
        let pcs = b.block.start_pcs();
        if pcs.len() > 1 {
            g.label("superblock");
        }
        ensure!(got.insert(pcs.clone(), b.count).is_none(), "duplicate", "{pcs:?} twice\n{}", e.show());
        for part in b.block.blocks() {
            let orig = bbs.iter().find(|x| x.start_pc == part.start_pc);
            ensure!(
                orig.is_some_and(|o| o.instructions == part.instructions),
                "content",
                "block {} has different instructions\n{}",
                part.start_pc,
                e.show()
            );
        }
    }
    ensure!(got == want_pcs, "counts", "{}\nexpected {want_pcs:?}\ngot      {got:?}", e.show());
    // runs
    let mut runs: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
    for r in e.runs() {
        *runs.entry(r.iter().map(|b| e.start(*b)).collect()).or_default() += 1;
    }
    let mut got: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
    for (r, n) in &r.execution_bb_runs {
        *got.entry(r.0.clone()).or_default() += n;
    }
    ensure!(got == runs, "runs", "{}\nexpected {runs:?}\ngot      {got:?}", e.show());
    Ok(())
}
fn c21_any(g: &mut Gen) -> CaseResult {
    if g.bool() {
        c21::<1>(g)
    } else {
        c21::<4>(g)
    }
}

// ---------------------------------------------------------------------------------------------
// Selection

type A = TinyAdapter<13>;
type F = Fp<13>;

/// Cost and value follow from the instructions and the composition of the block.
fn cost(b: &SuperBlock<StepIns<1>>) -> usize {
    let n = b.blocks().count() as u64;
    let s: u64 = b.instructions().map(|(_, i)| i.0.cost).sum();
    // sharing between blocks
    (s - (n - 1).min(s - 1)) as usize
}
fn value(b: &SuperBlock<StepIns<1>>) -> usize {
    let n = b.blocks().count() as u64;
    let s: u64 = b.instructions().map(|(_, i)| i.0.value).sum();
    (s + (n - 1) * (s % 3)) as usize
}

struct Cand(AdapterApcWithStats<A>);
impl ApcCandidate<A> for Cand {
    fn create(a: AdapterApcWithStats<A>) -> Self {
        Cand(a)
    }
    fn inner(&self) -> &AdapterApcWithStats<A> {
        &self.0
    }
    fn into_inner(self) -> AdapterApcWithStats<A> {
        self.0
    }
    fn cost_before_opt(&self) -> usize {
        10 * cost(&self.0.apc().block) + 3
    }
    fn cost_after_opt(&self) -> usize {
        cost(&self.0.apc().block)
    }
    fn value_per_use(&self) -> usize {
        value(&self.0.apc().block)
    }
}

/// A VM whose instructions do nothing: op 1 is possible, op 2 contradictory.
fn idle() -> (Handler<F, 1>, TinyBuses<F>) {
    let v = |i: u32| Ex::<F>::V(Var(i));
    let bus = |id: u64, mult: Ex<F>, args: Vec<Ex<F>>| SymbolicBusInteraction {
        id,
        mult: to_alg(&mult),
        args: args.iter().map(to_alg).collect(),
    };
    let kit = Kit::tiny(2);
    let machine = |op: u64, bad: bool| SymbolicMachine {
        constraints: bad
            .then(|| to_alg(&(v(2) * (v(2) - Ex::c(2)))).into())
            .into_iter()
            .chain([to_alg(&(v(2) * (v(2) - Ex::c(1)))).into()])
            .collect(),
        bus_interactions: vec![
            bus(kit.pc, v(2), vec![v(0), Ex::c(op), v(3), v(4), v(5)]),
            bus(kit.exec, -v(2), vec![v(0), v(1)]),
            // may continue anywhere
            bus(kit.exec, v(2), vec![v(6), v(1) + Ex::c(1)]),
        ],
        derived_columns: vec![],
    };
    (
        Handler {
            machines: vec![machine(1, false), machine(2, true)],
            air_of_op: [(1, 0), (2, 1)].into(),
            bound: bound(),
        },
        TinyBuses::new(2, true),
    )
}

fn profile(list: Vec<u64>) -> ExecutionProfile {
    let mut pc_count = HashMap::new();
    for pc in &list {
        *pc_count.entry(*pc).or_insert(0) += 1;
    }
    ExecutionProfile { pc_count, pc_list: list }
}

fn select(
    p: &impl PgoAdapter<Adapter = A>,
    blocks: Vec<BasicBlock<StepIns<1>>>,
    cfg: &PowdrConfig,
) -> Result<Vec<SuperBlock<StepIns<1>>>, Failure> {
    let (h, buses) = idle();
    let vm: AdapterVmConfig<A> =
        VmConfig { instruction_handler: &h, bus_interaction_handler: buses, bus_map: tiny_bus_map() };
    catch(|| {
        p.filter_blocks_and_create_apcs_with_pgo(
            blocks,
            cfg,
            vm,
            BTreeMap::new(),
            EmpiricalConstraints::default(),
        )
    })
    .map(|v| v.iter().map(|a| a.apc().block.clone()).collect())
    .map_err(|e| Failure::new("panic", e))
}

fn gen_small(g: &mut Gen) -> Option<Exec<1>> {
    let mut e = Exec::<1>::generate(g, 20, 60, true)?;
    e.cfg.superblock_max_bb_count = e.cfg.superblock_max_bb_count.min(3);
    // real pcs have to fit into the tiny field only for the circuits; the selection uses u64
    if g.chance(1, 6) {
        let i = g.usize(e.prog.code.len());
        e.prog.code[i].0.op = 2;
    }
    Some(e)
}

fn c22_cell(g: &mut Gen) -> CaseResult {
    let Some(e) = gen_small(g) else { return Ok(()) };
    let budget = g.bool().then(|| g.usize(24));
    g.note(|| {
        format!(
            "{} budget {budget:?} costs/values/ops {:?}",
            e.show(),
            e.prog.code.iter().map(|i| (i.0.cost, i.0.value, i.0.op)).collect::<Vec<_>>()
        )
    });
    let bbs = e.basic_blocks(g);
    let pgo = || {
        CellPgo::<A, Cand>::with_pgo_data_and_max_columns(profile(e.pc_list()), budget)
    };
    let got = select(&pgo(), bbs.clone(), &e.cfg)?;
    let pcs = |v: &[SuperBlock<StepIns<1>>]| v.iter().map(|b| b.start_pcs()).collect::<Vec<_>>();
    let (n, skip) = (e.cfg.autoprecompiles as usize, e.cfg.skip_autoprecompiles as usize);
    ensure!(got.len() <= n, "too-many", "{} of {n}\n{}", got.len(), e.show());
    let again = select(&pgo(), bbs.clone(), &e.cfg)?;
    ensure_eq!(pcs(&got), pcs(&again), "not-reproducible");
    if n == 0 {
        return Ok(());
    }
    // the same without skipping
    let mut cfg = e.cfg.clone();
    cfg.autoprecompiles = (n + skip) as u64;
    cfg.skip_autoprecompiles = 0;
    let all = if skip == 0 { got.clone() } else { select(&pgo(), bbs.clone(), &cfg)? };
    ensure!(all.len() <= n + skip, "too-many", "{} of {}\n{}", all.len(), n + skip, e.show());
    ensure!(
        pcs(&got) == pcs(&all)[skip.min(all.len())..],
        "skip",
        "skipping {skip}: {:?} of {:?}\n{}",
        pcs(&got),
        pcs(&all),
        e.show()
    );
    // stepwise
    let index = |pc: u64| (pc - e.prog.base) as usize;
    let block_at = |pc: u64| e.blocks.iter().position(|b| b.0 == index(pc)).unwrap();
    let mut cands: BTreeMap<Vec<usize>, (usize, usize)> = e
        .expected()
        .into_keys()
        .filter(|s| {
            s.iter().all(|b| {
                let (i, l) = e.blocks[*b];
                e.prog.code[i..i + l].iter().all(|x| x.0.op == 1)
            })
        })
        .map(|s| {
            let sb = SuperBlock::from(
                s.iter()
                    .map(|b| bbs.iter().find(|x| x.start_pc == e.start(*b)).unwrap().clone())
                    .collect::<Vec<_>>(),
            );
            (s, (cost(&sb), value(&sb)))
        })
        .collect();
    let mut runs = e.runs();
    let mut spent = 0;
    let budget = budget.unwrap_or(usize::MAX);
    for (step, b) in all.iter().enumerate() {
        let s: Vec<usize> = b.start_pcs().iter().map(|p| block_at(*p)).collect();
        let describe = || format!("pick {step} = {:?} of {:?}\n{}", b.start_pcs(), pcs(&all), e.show());
        let Some((c, v)) = cands.remove(&s) else {
            return Err(Failure::new("not-a-candidate", describe()));
        };
        let count = |s: &[usize]| runs.iter().map(|r| max_disjoint(r, s)).sum::<u32>() as usize;
        let k = count(&s);
        ensure!(k > 0, "never-runs", "{}", describe());
        ensure!(spent + c <= budget, "budget", "{spent} + {c} > {budget}; {}", describe());
        for (o, (oc, ov)) in &cands {
            let ok = count(o);
            if ok == 0 || spent + oc > budget {
                continue;
            }
            if ok != k || *oc != c {
                g.nontrivial();
            }
            // value * count / cost
            ensure!(
                v * k * oc >= ov * ok * c,
                "not-best",
                "{}; density {}/{c} but {:?} has {}/{oc}",
                describe(),
                v * k,
                o.iter().map(|b| e.start(*b)).collect::<Vec<_>>(),
                ov * ok
            );
        }
        spent += c;
        // cover the executions
        runs = runs
            .into_iter()
            .flat_map(|r| {
                let mut parts = vec![];
                let mut cur = vec![];
                let mut i = 0;
                while i < r.len() {
                    if r[i..].starts_with(&s) {
                        parts.push(std::mem::take(&mut cur));
                        i += s.len();
                    } else {
                        cur.push(r[i]);
                        i += 1;
                    }
                }
                parts.push(cur);
                parts
            })
            .filter(|r| !r.is_empty())
            .collect();
    }
    if all.len() < n + skip {
        for (o, (oc, _)) in &cands {
            let k: u32 = runs.iter().map(|r| max_disjoint(r, o)).sum();
            ensure!(
                k == 0 || spent + oc > budget,
                "stopped-early",
                "{:?} still runs {k} times and fits\nselected {:?}\n{}",
                o.iter().map(|b| e.start(*b)).collect::<Vec<_>>(),
                pcs(&all),
                e.show()
            );
        }
        g.label("exhausted");
    }
    Ok(())
}

/// Selection by instruction count, with or without a profile.
fn c22_instructions(g: &mut Gen) -> CaseResult {
    let Some(mut e) = gen_small(g) else { return Ok(()) };
    let with_profile = g.bool();
    for i in &mut e.prog.code {
        i.0.op = 1;
    }
    e.cfg.superblock_max_bb_count = 1;
    g.note(|| format!("profile {with_profile} {}", e.show()));
    let bbs = e.basic_blocks(g);
    // candidates with their benefit
    let cands: BTreeMap<u64, usize> = if with_profile {
        e.expected()
            .into_iter()
            .map(|(s, c)| (e.start(s[0]), c as usize * e.blocks[s[0]].1))
            .collect()
    } else {
        (0..e.blocks.len())
            .filter(|b| e.blocks[*b].1 > 1)
            .map(|b| (e.start(b), e.blocks[b].1))
            .collect()
    };
    let go = || {
        if with_profile {
            select(&InstructionPgo::<A>::with_pgo_data(profile(e.pc_list())), bbs.clone(), &e.cfg)
        } else {
            select(&NonePgo::<A>::default(), bbs.clone(), &e.cfg)
        }
    };
    let got = go()?;
    let pcs: Vec<Vec<u64>> = got.iter().map(|b| b.start_pcs()).collect();
    let again: Vec<Vec<u64>> = go()?.iter().map(|b| b.start_pcs()).collect();
    ensure_eq!(pcs, again, "not-reproducible");
    let mut values = vec![];
    let mut seen = BTreeSet::new();
    for p in &pcs {
        ensure!(p.len() == 1 && cands.contains_key(&p[0]), "not-a-candidate", "{p:?}\n{}", e.show());
        ensure!(seen.insert(p[0]), "twice", "{p:?}\n{}", e.show());
        values.push(cands[&p[0]]);
    }
    let mut sorted: Vec<usize> = cands.values().copied().collect();
    sorted.sort();
    sorted.reverse();
    let want: Vec<usize> = sorted
        .iter()
        .copied()
        .skip(e.cfg.skip_autoprecompiles as usize)
        .take(e.cfg.autoprecompiles as usize)
        .collect();
    let mut distinct = sorted.clone();
    distinct.dedup();
    if distinct.len() > 1 && !want.is_empty() {
        g.nontrivial();
    }
    ensure!(
        values == want,
        "not-best",
        "selected {pcs:?} with benefit {values:?}, expected {want:?} of {cands:?}\n{}",
        e.show()
    );
    Ok(())
}

/// The profile records exactly the pcs of the execution.
fn c22_profile(g: &mut Gen) -> CaseResult {
    let n = g.range(1, 30);
    let distinct = g.range(1, 8);
    let base = g.below(1 << 40);
    let pcs: Vec<u64> = (0..n).map(|_| base + 4 * g.usize(distinct) as u64).collect();
    let noise: Vec<usize> = (0..n).map(|_| g.usize(5)).collect();
    g.note(|| format!("{pcs:?} {noise:?}"));
    if n > 1 {
        g.nontrivial();
    }
    let prog = Prog::<4> { base, code: vec![] };
    let p = catch(|| {
        execution_profile::<BabyAdapter>(&prog, || {
            for (pc, k) in pcs.iter().zip(&noise) {
                match k {
                    0 => tracing::info!("no pc here"),
                    1 => tracing::trace!(other = 5u64, "other"),
                    2 => tracing::debug!(pcx = *pc, name = "pc"),
                    _ => {}
                }
                tracing::trace!(pc = *pc, "executing");
            }
        })
    })
    .map_err(|e| Failure::new("panic", e))?;
    ensure_eq!(p.pc_list, pcs, "pc-list");
    let mut want = HashMap::new();
    for pc in &pcs {
        *want.entry(*pc).or_insert(0u32) += 1;
    }
    ensure_eq!(p.pc_count, want, "pc-count");
    let probe = base + 4 * g.usize(distinct + 1) as u64;
    let pgo = InstructionPgo::<A>::with_pgo_data(p);
    ensure_eq!(pgo.pc_execution_count(probe), want.get(&probe).copied(), "pc-execution-count");
    Ok(())
}

fn main() {
    run(vec![
        Property {
            id: "C20",
            rule: "more than one block and at least one block with several instructions",
            assumptions: &["programs given as instruction lists with a base address and a constant step"],
            subs: vec![Sub { name: "partition", f: c20_any, quick: 6_000_000, thorough: 60_000_000 }],
        },
        Property {
            id: "C21",
            rule: "several superblocks are expected, at least one with several occurrences",
            assumptions: &["the execution consists of complete executions of the given basic blocks"],
            subs: vec![Sub { name: "detect", f: c21_any, quick: 3_000_000, thorough: 100_000_000 }],
        },
        Property {
            id: "C22",
            rule: "cell: at some pick another eligible candidate differs in cost or count; instruction: candidates of different benefit; profile: several steps",
            assumptions: &["costs are positive", "ties may be broken in any fixed way"],
            subs: vec![
                Sub { name: "cell", f: c22_cell, quick: 30_000, thorough: 1_000_000 },
                Sub { name: "instructions", f: c22_instructions, quick: 50_000, thorough: 1_000_000 },
                Sub { name: "profile", f: c22_profile, quick: 100_000, thorough: 5_000_000 },
            ],
        },
    ]);
}
