//! C27: ELF loading; C28: jump destinations of 64-bit binaries.

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use powdr_isa_utils::SingleDataValue;
use powdr_riscv_elf::{load_elf_from_buffer, rv64::compute_jumpdests_from_buffer};
use powdr_riscv_types::{InstructionArgs, RiscVProgram, Statement};
use powdr_syscalls::Syscall;
use powdr_verif_harness::elfgen::*;
use powdr_verif_harness::engine::{catch, main as run, CaseResult, Failure, Gen, Property, Sub};
use powdr_verif_harness::{ensure, ensure_eq};

// ---------------------------------------------------------------------------------------------
// generation

fn reg(g: &mut Gen) -> R {
    match g.below(4) {
        0 => *g.pick(&[10u8, 11, 12, 1, 2, 0, 5, 6, 3, 8]),
        1 => g.range(8, 15) as R,
        _ => g.usize(32) as R,
    }
}
fn nzreg(g: &mut Gen) -> R {
    match reg(g) {
        0 => 10,
        r => r,
    }
}
fn creg(g: &mut Gen) -> R {
    g.range(8, 15) as R
}
fn imm12(g: &mut Gen) -> i32 {
    match g.below(4) {
        0 => *g.pick(&[0, 1, -1, 2047, -2048, 4, 31, 32, -32]),
        1 => g.range_i(-33, 33) as i32,
        _ => g.range_i(-2048, 2047) as i32,
    }
}
fn hi20(g: &mut Gen) -> u32 {
    match g.below(4) {
        0 => *g.pick(&[0u32, 1, 0xfffff, 0x80000, 0x7ffff, 31, 32]) << 12,
        1 => (g.range_i(-33, 33) as i32 as u32) << 12,
        _ => (g.below(1 << 20) as u32) << 12,
    }
}

/// A straight-line, non-AUIPC instruction (32-bit form).
fn plain(g: &mut Gen) -> I {
    match g.below(11) {
        0 | 1 => {
            let op = *g.pick(&IMM_OPS);
            let imm = if matches!(op, "slli" | "srli" | "srai") { g.range(0, 31) as i32 } else { imm12(g) };
            I::Imm(op, reg(g), reg(g), imm)
        }
        2 | 3 => I::Reg(*g.pick(&REG_OPS), reg(g), reg(g), reg(g)),
        4 => I::Load(*g.pick(&LOADS), reg(g), reg(g), imm12(g)),
        5 => I::Store(*g.pick(&STORES), reg(g), reg(g), imm12(g)),
        6 => I::Lui(reg(g), hi20(g)),
        7 => I::Amo(*g.pick(&AMOS), reg(g), reg(g), reg(g)),
        8 => match g.below(2) {
            0 => I::Lr(reg(g), reg(g)),
            _ => I::Sc(reg(g), reg(g), reg(g)),
        },
        9 => match g.below(4) {
            0 => I::Fence,
            1 => I::Ecall,
            2 => I::Ebreak,
            _ => I::Unimp,
        },
        _ => I::Jalr(reg(g), reg(g), 0),
    }
}

/// An instruction that has a compressed form (jumps excluded).
fn compressible(g: &mut Gen) -> I {
    let nz6 = |g: &mut Gen| {
        let v = g.range_i(-32, 31) as i32;
        if v == 0 {
            1
        } else {
            v
        }
    };
    let i = match g.below(24) {
        0 => I::Imm("addi", 0, 0, 0),
        1 => {
            let r = nzreg(g);
            I::Imm("addi", r, r, nz6(g))
        }
        2 => I::Imm("addi", nzreg(g), 0, g.range_i(-32, 31) as i32),
        3 => {
            let v = g.range_i(-32, 31) as i32 * 16;
            I::Imm("addi", 2, 2, if v == 0 { 64 } else { v })
        }
        4 => I::Imm("addi", creg(g), 2, (1 + g.below(255) as i32) * 4),
        5 => {
            let r = nzreg(g);
            I::Lui(if r == 2 { 10 } else { r }, (nz6(g) as u32) << 12)
        }
        6 | 7 => {
            let r = creg(g);
            I::Imm(*g.pick(&["srli", "srai"]), r, r, g.range(1, 31) as i32)
        }
        8 => {
            let r = creg(g);
            I::Imm("andi", r, r, g.range_i(-32, 31) as i32)
        }
        9 => {
            let r = nzreg(g);
            I::Imm("slli", r, r, g.range(1, 31) as i32)
        }
        10 | 11 => I::Load("lw", nzreg(g), 2, g.below(64) as i32 * 4),
        12 | 13 => I::Load("lw", creg(g), creg(g), g.below(32) as i32 * 4),
        14 => I::Store("sw", reg(g), 2, g.below(64) as i32 * 4),
        15 => I::Store("sw", creg(g), creg(g), g.below(32) as i32 * 4),
        16 | 17 => {
            let r = creg(g);
            I::Reg(*g.pick(&["sub", "xor", "or", "and"]), r, r, creg(g))
        }
        18 => I::Reg("add", nzreg(g), 0, nzreg(g)),
        19 => {
            let r = nzreg(g);
            I::Reg("add", r, r, nzreg(g))
        }
        20 => I::Jalr(0, nzreg(g), 0),
        21 => I::Jalr(1, nzreg(g), 0),
        22 => I::Ebreak,
        _ => I::Unimp,
    };
    assert!(enc16(&i, 0).is_some(), "not compressible: {i:?}");
    i
}

#[derive(Clone, Debug)]
enum Kind {
    Plain(I),
    /// jal / compressed jal or j
    Jump(R),
    Branch(&'static str, R, R),
    Call(R),
    Tail,
    /// auipc + addi to code: (auipc register, addi register)
    LaText(R, R),
    /// auipc + addi to anything else
    LaData(R, R),
    AuipcLoad(&'static str, R),
    AuipcStore(&'static str, R, R),
    /// auipc that is the last instruction of its segment
    AuipcLast(R),
    /// lui + addi, arbitrary constant
    Const(R, R),
    /// lui + addi with a relocation, to code or to data
    AbsText(R, R),
    AbsData(R, R),
    Syscall(i32),
}

#[derive(Clone, Debug)]
struct Unit {
    kind: Kind,
    /// first / second instruction in compressed form (if possible)
    c: (bool, bool),
    choice: u64,
    aqrl: u32,
}

#[derive(Clone, Debug)]
struct Insn {
    addr: u32,
    len: u32,
    i: I,
    /// First instruction of a pair that computes a code address into the given register.
    code_ref: bool,
}

struct Program {
    file: ElfFile,
    text: Vec<Insn>,
    text_ranges: Vec<(u32, u32)>,
    /// expected initial memory: address → (value, is code address)
    memory: BTreeMap<u32, (u32, bool)>,
    features: Vec<&'static str>,
}

fn split(delta: u32) -> (u32, i32) {
    let lo = ((delta << 20) as i32) >> 20;
    (delta.wrapping_sub(lo as u32), lo)
}

fn gen_program(g: &mut Gen) -> Program {
    let mut features: Vec<&'static str> = vec![];
    let pie = g.bool();
    let n_text = 1 + g.chance(1, 3) as usize;
    let n_data = g.range(0, 3);

    // --- code skeleton
    let mut segs: Vec<Vec<Unit>> = vec![];
    for _ in 0..n_text {
        let n = g.range(1, 14);
        let mut units = vec![];
        for k in 0..n {
            let last = k + 1 == n;
            let kind = match g.below(20) {
                0..=3 => Kind::Plain(plain(g)),
                4..=7 => Kind::Plain(compressible(g)),
                8 => Kind::Jump(if g.bool() { g.below(2) as R } else { reg(g) }),
                9 => {
                    if g.bool() {
                        Kind::Branch(*g.pick(&["beq", "bne"]), creg(g), 0)
                    } else {
                        Kind::Branch(*g.pick(&BRANCHES), reg(g), reg(g))
                    }
                }
                10 => Kind::Call(if g.bool() { 1 } else { nzreg(g) }),
                11 => Kind::Tail,
                12 => {
                    let r = nzreg(g);
                    Kind::LaText(r, if g.chance(1, 4) { nzreg(g) } else { r })
                }
                13 => {
                    let r = nzreg(g);
                    Kind::LaData(r, if g.chance(1, 4) { reg(g) } else { r })
                }
                14 => Kind::AuipcLoad(*g.pick(&LOADS), nzreg(g)),
                15 => Kind::AuipcStore(*g.pick(&STORES), nzreg(g), reg(g)),
                16 => {
                    let r = reg(g);
                    Kind::Const(r, if g.chance(1, 4) { reg(g) } else { r })
                }
                17 | 18 if !pie => {
                    let r = nzreg(g);
                    let r2 = if g.chance(1, 4) { nzreg(g) } else { r };
                    if g.bool() {
                        Kind::AbsText(r, r2)
                    } else {
                        Kind::AbsData(r, r2)
                    }
                }
                17 if last => Kind::AuipcLast(nzreg(g)),
                _ => Kind::Syscall(if g.bool() { g.range(1, 15) as i32 } else { imm12(g) }),
            };
            units.push(Unit {
                kind,
                c: (g.bool(), g.bool()),
                choice: g.u64(),
                aqrl: g.below(4) as u32,
            });
        }
        segs.push(units);
    }

    // --- sizes
    let pair = |k: &Kind| {
        !matches!(
            k,
            Kind::Plain(_) | Kind::Jump(_) | Kind::Branch(..) | Kind::AuipcLast(_)
        )
    };
    let dummy = |u: &Unit| -> (u32, u32) {
        let l = |ok: bool| if ok { 2 } else { 4 };
        match &u.kind {
            Kind::Plain(i) => (l(u.c.0 && enc16(i, 0).is_some()), 0),
            Kind::Jump(rd) => (l(u.c.0 && *rd < 2), 0),
            Kind::Branch(op, a, b) => (
                l(u.c.0 && *b == 0 && matches!(*op, "beq" | "bne") && (8..16).contains(a)),
                0,
            ),
            Kind::AuipcLast(_) => (4, 0),
            Kind::Syscall(n) => (l(u.c.0 && enc16(&I::Imm("addi", 5, 0, *n), 0).is_some()), 4),
            Kind::Const(r, r2) => {
                // the constant is a function of the choice, so its encodability is known
                let (hi, lo) = split(constant(u.choice));
                (
                    l(u.c.0 && enc16(&I::Lui(*r, hi), 0).is_some()),
                    l(u.c.1 && enc16(&I::Imm("addi", *r2, *r, lo), 0).is_some()),
                )
            }
            _ => (4, 4),
        }
    };

    // --- placement
    let mut cursor: u32 = *g.pick(&[0x1000u32, 0x0020_0000, 0x7fff_ff80, 0x7fff_ffc0, 0x8000_0000, 0xf000_0000, 0x0001_0000]);
    cursor += g.below(8) as u32 * 4;
    let mut order: Vec<(bool, usize)> = (0..n_text).map(|i| (true, i)).chain((0..n_data).map(|i| (false, i))).collect();
    g.shuffle(&mut order);
    let mut text_base = vec![0u32; n_text];
    let mut data_segs: Vec<(u32, Vec<u8>, u32)> = vec![(0, vec![], 0); n_data];
    let mut text_ranges = vec![];
    for (is_text, i) in &order {
        if *is_text {
            text_base[*i] = cursor;
            let size: u32 = segs[*i].iter().map(|u| dummy(u).0 + dummy(u).1).sum();
            text_ranges.push((cursor, cursor + size));
            cursor += size;
            // The segment after code may start right at its end, if aligned; a gap otherwise.
            if cursor % 4 != 0 {
                cursor += 2;
                cursor += 4;
            } else if !g.chance(1, 4) {
                cursor += 4 + 4 * g.below(600) as u32;
            }
        } else {
            let len = if g.chance(1, 5) { 0 } else { g.range(1, 40) };
            let bytes: Vec<u8> = (0..len)
                .map(|_| if g.chance(1, 3) { 0 } else { g.below(256) as u8 })
                .collect();
            let memsz = len as u32 + if g.bool() { g.below(20) as u32 } else { 0 };
            data_segs[*i] = (cursor, bytes, memsz);
            cursor += memsz.next_multiple_of(4).max(4);
            if g.bool() {
                cursor += 4 * g.below(600) as u32;
            }
        }
    }
    let in_text = |a: u32| text_ranges.iter().any(|(s, e)| (*s..*e).contains(&a));
    let near_text = |a: u32| text_ranges.iter().any(|(s, e)| (*s..=*e).contains(&a));

    // --- addresses of instructions and admissible targets
    let mut starts: Vec<Vec<(u32, u32)>> = vec![];
    let mut targets: Vec<Vec<u32>> = vec![];
    for (i, units) in segs.iter().enumerate() {
        let mut a = text_base[i];
        let mut s = vec![];
        let mut t = vec![];
        for u in units {
            let (l1, l2) = dummy(u);
            s.push((a, a + l1));
            t.push(a);
            let splittable = match &u.kind {
                // Jumping between the instructions of these pairs is supported.
                Kind::Const(..) | Kind::AbsData(..) | Kind::LaData(..) | Kind::AuipcStore(..) => true,
                _ => false,
            };
            if splittable {
                t.push(a + l1);
            }
            a += l1 + l2;
        }
        starts.push(s);
        targets.push(t);
    }
    // Instructions generated one by one may form a pair as well: no jump to the second one.
    for (i, units) in segs.iter().enumerate() {
        for k in 1..units.len() {
            if matches!(&units[k].kind, Kind::Plain(I::Ecall)) {
                let a = starts[i][k].0;
                targets[i].retain(|t| *t != a);
            }
        }
    }
    let all_targets: Vec<u32> = targets.iter().flatten().copied().collect();
    let pick_target = |seg: Option<usize>, choice: u64| -> u32 {
        let l = match seg {
            Some(s) => &targets[s],
            None => &all_targets,
        };
        l[(choice % l.len() as u64) as usize]
    };
    let data_ranges: Vec<(u32, u32)> = data_segs
        .iter()
        .map(|(s, b, m)| (*s, (b.len() as u32).max(*m).max(1)))
        .collect();
    let data_addr = |choice: u64| -> u32 {
        let c = (choice >> 8) as u32;
        let mut a = if data_ranges.is_empty() || choice % 8 == 0 {
            c
        } else {
            let (base, size) = &data_ranges[(choice % data_ranges.len() as u64) as usize];
            base.wrapping_add(c % size)
        };
        while near_text(a) {
            // a data segment may follow code immediately
            let in_data = data_ranges.iter().any(|(s, n)| (*s..*s + *n).contains(&a));
            if in_data {
                break;
            }
            a = a.wrapping_add(0x1234_5678);
        }
        a
    };

    // --- instructions
    let mut text: Vec<Insn> = vec![];
    let mut relas: Vec<Rela> = vec![];
    let mut seg_bytes: Vec<Vec<u8>> = vec![];
    for (i, units) in segs.iter().enumerate() {
        let mut bytes = vec![];
        for (k, u) in units.iter().enumerate() {
            let (a1, a2) = starts[i][k];
            let (l1, l2) = dummy(u);
            let auipc = |r: R, t: u32| {
                let (hi, lo) = split(t.wrapping_sub(a1));
                (I::Auipc(r, hi), lo)
            };
            let mut code_ref = false;
            let (i1, i2): (I, Option<I>) = match &u.kind {
                Kind::Plain(x) => (x.clone(), None),
                Kind::Jump(rd) => {
                    let t = pick_target(Some(i), u.choice);
                    (I::Jal(*rd, t), None)
                }
                Kind::Branch(op, a, b) => (I::Br(op, *a, *b, pick_target(Some(i), u.choice)), None),
                Kind::Call(r) => {
                    let (x, lo) = auipc(*r, pick_target(None, u.choice));
                    features.push("call");
                    (x, Some(I::Jalr(*r, *r, lo)))
                }
                Kind::Tail => {
                    let (x, lo) = auipc(6, pick_target(None, u.choice));
                    features.push("tail");
                    (x, Some(I::Jalr(0, 6, lo)))
                }
                Kind::LaText(r, r2) => {
                    let (x, lo) = auipc(*r, pick_target(None, u.choice));
                    code_ref = *r2 != 3;
                    features.push("la");
                    (x, Some(I::Imm("addi", *r2, *r, lo)))
                }
                Kind::LaData(r, r2) => {
                    let (x, lo) = auipc(*r, data_addr(u.choice));
                    (x, Some(I::Imm("addi", *r2, *r, lo)))
                }
                Kind::AuipcLoad(op, r) => {
                    let (x, lo) = auipc(*r, data_addr(u.choice));
                    features.push("auipc-load");
                    (x, Some(I::Load(op, *r, *r, lo)))
                }
                Kind::AuipcStore(op, r, v) => {
                    let (x, lo) = auipc(*r, data_addr(u.choice));
                    (x, Some(I::Store(op, *v, *r, lo)))
                }
                Kind::AuipcLast(r) => (I::Auipc(*r, (u.choice as u32) << 12), None),
                Kind::Const(r, r2) => {
                    let (hi, lo) = split(constant(u.choice));
                    features.push("li");
                    (I::Lui(*r, hi), Some(I::Imm("addi", *r2, *r, lo)))
                }
                Kind::AbsText(r, r2) | Kind::AbsData(r, r2) => {
                    let t = if matches!(u.kind, Kind::AbsText(..)) {
                        code_ref = *r2 != 3;
                        features.push("absolute-la");
                        pick_target(None, u.choice)
                    } else {
                        data_addr(u.choice)
                    };
                    let (hi, lo) = split(t);
                    relas.push(Rela { offset: a1 as u64, kind: R_RISCV_HI20, addend: 0 });
                    relas.push(Rela { offset: a2 as u64, kind: R_RISCV_LO12_I, addend: 0 });
                    (I::Lui(*r, hi), Some(I::Imm("addi", *r2, *r, lo)))
                }
                Kind::Syscall(n) => {
                    features.push("syscall");
                    (I::Imm("addi", 5, 0, *n), Some(I::Ecall))
                }
            };
            let mut push = |x: I, a: u32, l: u32, code_ref: bool| {
                if l == 2 {
                    bytes.extend(enc16(&x, a).unwrap_or_else(|| panic!("{x:?}")).to_le_bytes());
                } else {
                    bytes.extend(enc32(&x, a, u.aqrl).to_le_bytes());
                }
                text.push(Insn { addr: a, len: l, i: x, code_ref });
            };
            assert_eq!(pair(&u.kind), i2.is_some());
            push(i1, a1, l1, code_ref);
            if let Some(x) = i2 {
                push(x, a2, l2, false);
            }
        }
        seg_bytes.push(bytes);
    }
    text.sort_by_key(|x| x.addr);

    // --- data and its relocations
    let mut memory: BTreeMap<u32, (u32, bool)> = BTreeMap::new();
    let mut data_relas: Vec<Rela> = vec![];
    for (base, bytes, memsz) in data_segs.iter_mut() {
        let words = (*memsz as usize).max(bytes.len()) / 4;
        for w in 0..words {
            if !g.chance(1, 4) {
                continue;
            }
            let offset = *base + 4 * w as u32;
            let to_text = g.bool();
            let choice = g.u64();
            let v = if to_text { pick_target(None, choice) } else { data_addr(choice) };
            if !to_text && near_text(v) && !in_text(v) && !pie {
                continue;
            }
            if pie {
                data_relas.push(Rela { offset: offset as u64, kind: R_RISCV_RELATIVE, addend: v as i32 as i64 });
                memory.insert(offset, (v, in_text(v)));
                features.push(if in_text(v) { "code-pointer" } else { "data-pointer" });
            } else if 4 * w + 4 <= bytes.len() && v != 0 {
                // The linker has already stored the value.
                bytes[4 * w..4 * w + 4].copy_from_slice(&v.to_le_bytes());
                data_relas.push(Rela { offset: offset as u64, kind: R_RISCV_32, addend: 0 });
                memory.insert(offset, (v, in_text(v)));
                features.push(if in_text(v) { "code-pointer" } else { "data-pointer" });
            }
        }
        // A plain number that looks like a code address is no code address.
        if bytes.len() >= 4 && !memory.contains_key(base) && g.chance(1, 4) {
            let v = pick_target(None, g.u64());
            bytes[..4].copy_from_slice(&v.to_le_bytes());
        }
        for (w, chunk) in bytes.chunks(4).enumerate() {
            let mut p = [0; 4];
            p[..chunk.len()].copy_from_slice(chunk);
            memory.entry(*base + 4 * w as u32).or_insert((u32::from_le_bytes(p), false));
        }
    }

    // --- file
    let mut segments: Vec<Segment> = vec![];
    for (i, b) in seg_bytes.iter().enumerate() {
        segments.push(Segment { vaddr: text_base[i] as u64, bytes: b.clone(), memsz: b.len() as u64, exec: true });
    }
    for (base, bytes, memsz) in &data_segs {
        segments.push(Segment {
            vaddr: *base as u64,
            bytes: bytes.clone(),
            memsz: (*memsz).max(bytes.len() as u32) as u64,
            exec: false,
        });
    }
    let mut dyn_rela = None;
    if pie && !data_relas.is_empty() {
        g.shuffle(&mut data_relas);
        let table: Vec<u8> = data_relas.iter().flat_map(|r| ElfFile::rela_bytes(false, r)).collect();
        let base = cursor + 64;
        for (w, chunk) in table.chunks(4).enumerate() {
            memory.insert(base + 4 * w as u32, (u32::from_le_bytes(chunk.try_into().unwrap()), false));
        }
        segments.push(Segment { vaddr: base as u64, memsz: table.len() as u64, bytes: table, exec: false });
        dyn_rela = Some((base as u64, data_relas.len() as u64));
    }
    let mut section_relas = vec![];
    if !pie {
        section_relas.push(relas);
        section_relas.push(data_relas);
        if g.bool() {
            section_relas.reverse();
        }
        if section_relas.iter().all(|r| r.is_empty()) {
            // The loader wants a relocation section; one for a spot outside of the data.
            section_relas[0].push(Rela { offset: text_base[0] as u64, kind: R_RISCV_LO12_I, addend: 0 });
        }
    }
    let mut seg_order = segments;
    g.shuffle(&mut seg_order);

    let sections = !pie || g.chance(3, 4);
    let mut symbols: Vec<Symbol> = vec![];
    if sections {
        let n = g.range(0, 8);
        for _ in 0..n {
            let value = match g.below(3) {
                0 | 1 => pick_target(None, g.u64()),
                _ => data_addr(g.u64()),
            };
            let name = match g.below(6) {
                0..=3 => g.pick(&["main", "f", "g", "f.1", "_start"]).to_string(),
                4 => format!("f_{value:08x}"),
                _ => String::new(),
            };
            symbols.push(Symbol { name, value: value as u64, kind: *g.pick(&[2u8, 1, 0]), global: g.bool() });
        }
    }
    let entry = pick_target(None, g.u64());
    let prover = g.chance(1, 3).then(|| (0x3000_0000 + 4 * g.below(100), 4 * g.below(1000)));
    Program {
        file: ElfFile {
            class64: false,
            pie,
            entry: entry as u64,
            segments: seg_order,
            prover,
            symbols,
            section_relas,
            dyn_rela,
            sections,
        },
        text,
        text_ranges,
        memory,
        features,
    }
}

fn constant(choice: u64) -> u32 {
    match choice % 4 {
        0 => ((choice >> 8) as u32 % 0x40000).wrapping_sub(0x20000),
        1 => [0, 1, 0x800, 0x7ff, 0x8000_0000, 0xffff_ffff, 0x7fff_ffff, 0xffff_f800][(choice >> 8) as usize % 8],
        _ => (choice >> 8) as u32,
    }
}

// ---------------------------------------------------------------------------------------------
// C27

enum Stmt {
    Label(String),
    Insn(String, I),
}

fn stat(list: &[&'static str], op: &str) -> Option<&'static str> {
    list.iter().find(|o| **o == op).copied()
}

/// Reads a lifted instruction through the arguments its mnemonic has.
fn read_lifted<A: InstructionArgs>(
    op: &str,
    a: &A,
    addr_of: &dyn Fn(&str) -> Option<u32>,
) -> Result<I, String> {
    let e = |x: A::Error| x.to_string();
    let lab = |l: &str| addr_of(l).ok_or_else(|| format!("label {l} is not known"));
    if let Some(o) = stat(&IMM_OPS, op) {
        let (rd, rs1, imm) = a.rri().map_err(e)?;
        return Ok(I::Imm(o, rd.addr(), rs1.addr(), imm as i32));
    }
    if let Some(o) = stat(&REG_OPS, op) {
        let (rd, rs1, rs2) = a.rrr().map_err(e)?;
        return Ok(I::Reg(o, rd.addr(), rs1.addr(), rs2.addr()));
    }
    if let Some(o) = stat(&LOADS, op) {
        let (rd, rs1, imm) = a.rro().map_err(e)?;
        return Ok(I::Load(o, rd.addr(), rs1.addr(), imm as i32));
    }
    if let Some(o) = stat(&STORES, op) {
        let (rs2, rs1, imm) = a.rro().map_err(e)?;
        return Ok(I::Store(o, rs2.addr(), rs1.addr(), imm as i32));
    }
    if let Some(o) = stat(&BRANCHES, op) {
        let (rs1, rs2, l) = a.rrl().map_err(e)?;
        return Ok(I::Br(o, rs1.addr(), rs2.addr(), lab(l.as_ref())?));
    }
    if let Some(o) = stat(&AMOS, op) {
        let (rd, rs2, rs1) = a.rrr2().map_err(e)?;
        return Ok(I::Amo(o, rd.addr(), rs2.addr(), rs1.addr()));
    }
    Ok(match op {
        "lui" => {
            let (rd, imm) = a.ri().map_err(e)?;
            I::Lui(rd.addr(), imm << 12)
        }
        "li" => {
            let (rd, imm) = a.ri().map_err(e)?;
            I::Li(rd.addr(), imm)
        }
        "la" => {
            let (rd, l) = a.rl().map_err(e)?;
            I::La(rd.addr(), lab(l.as_ref())?)
        }
        "jal" => {
            let (rd, l) = a.rl().map_err(e)?;
            I::Jal(rd.addr(), lab(l.as_ref())?)
        }
        "tail" => I::Tail(lab(a.l().map_err(e)?.as_ref())?),
        "jalr" => {
            let (rd, rs1, off) = a.rro().map_err(e)?;
            I::Jalr(rd.addr(), rs1.addr(), off as i32)
        }
        "lr.w" => {
            let (rd, rs1) = a.rr().map_err(e)?;
            I::Lr(rd.addr(), rs1.addr())
        }
        "sc.w" => {
            let (rd, rs2, rs1) = a.rrr2().map_err(e)?;
            I::Sc(rd.addr(), rs2.addr(), rs1.addr())
        }
        "fence" => I::Fence,
        "ecall" => {
            a.empty().map_err(e)?;
            I::Ecall
        }
        "ebreak" => {
            a.empty().map_err(e)?;
            I::Ebreak
        }
        "unimp" => {
            a.empty().map_err(e)?;
            I::Unimp
        }
        name => {
            let s = Syscall::from_str(name).map_err(|_| format!("unknown mnemonic {name}"))?;
            a.empty().map_err(e)?;
            I::Sys(u8::from(s))
        }
    })
}

fn random_state(g: &mut Gen) -> State {
    let pool: Vec<u32> = (0..4)
        .map(|_| match g.below(3) {
            0 => *g.pick(&[0u32, 1, u32::MAX, 0x8000_0000, 0x7fff_ffff]),
            _ => g.u64() as u32,
        })
        .collect();
    let mut r = [0u32; 32];
    let s = g.u64();
    for (k, x) in r.iter_mut().enumerate().skip(1) {
        *x = match (s >> k) & 3 {
            0 | 1 => pool[(s >> (k / 2)) as usize % 4],
            _ => (s.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_mul(2 * k as u64 + 1) >> 32) as u32,
        };
    }
    State { r, mem: BTreeMap::new(), salt: s, events: vec![] }
}

/// Does the lifted instruction do what the machine instructions do?
fn same_effect(l: &I, o: &[&Insn], states: &[State]) -> bool {
    let next = o.last().unwrap().addr.wrapping_add(o.last().unwrap().len);
    if matches!(l, I::La(..) | I::Tail(..) | I::Sys(..)) && o.len() != 2 {
        return false;
    }
    // An address of code must be a label, anything else must not.
    if matches!(l, I::La(..)) != (o.len() == 2 && o[0].code_ref) || (o.len() == 1 && o[0].code_ref) {
        return false;
    }
    // Registers the pseudo instruction is documented not to preserve.
    let ignored: Option<R> = match (l, &o[0].i) {
        (I::La(rd, _), I::Lui(r, _) | I::Auipc(r, _)) if r != rd => Some(*r),
        (I::Tail(_), _) => Some(6),
        (I::Sys(_), _) => Some(5),
        _ => None,
    };
    states.iter().all(|s| {
        let mut a = s.clone();
        let mut pc = o[0].addr;
        for x in o {
            if pc != x.addr {
                return false;
            }
            pc = exec(&x.i, x.addr, x.addr.wrapping_add(x.len), &mut a);
        }
        let mut b = s.clone();
        let pc_b = exec(l, o[0].addr, next, &mut b);
        if let Some(r) = ignored {
            a.r[r as usize] = 0;
            b.r[r as usize] = 0;
        }
        pc == pc_b && a.r == b.r && a.mem == b.mem && a.events == b.events
    })
}

fn derived(name: &str, base: &str, addr: u32) -> bool {
    match name.strip_prefix(base) {
        Some(mut rest) => {
            let suffix = format!("_{addr:08x}");
            while let Some(r) = rest.strip_prefix(suffix.as_str()) {
                rest = r;
            }
            rest.is_empty()
        }
        None => false,
    }
}

fn c27(g: &mut Gen) -> CaseResult {
    let p = gen_program(g);
    g.note(|| {
        let mut s = format!(
            "pie={} entry={:#x} relas={:?} symbols={:?}\n",
            p.file.pie, p.file.entry, p.file.section_relas, p.file.symbols
        );
        for x in &p.text {
            s += &format!("{:08x} ({}) {}{}\n", x.addr, x.len, asm(&x.i, x.addr), if x.code_ref { "   # code reference" } else { "" });
        }
        for s1 in &p.file.segments {
            s += &format!("segment {:#x} filesz {} memsz {} exec {}\n", s1.vaddr, s1.bytes.len(), s1.memsz, s1.exec);
        }
        s
    });
    for f in &p.features {
        g.label(f);
    }
    if p.features.len() >= 2 && p.text.len() >= 6 {
        g.nontrivial();
    }
    let bytes = p.file.write();
    let mut elf = catch(|| load_elf_from_buffer(&bytes)).map_err(|m| {
        Failure::new("load-panic", format!("loading a supported file panicked: {m}"))
    })?;

    // --- symbols
    let table: BTreeMap<u32, Vec<String>> = elf.debug_info().symbols.table().clone();
    let mut by_name: BTreeMap<String, u32> = BTreeMap::new();
    let real: Vec<&Symbol> = p.file.symbols.iter().filter(|s| s.kind != 0 && !s.name.is_empty()).collect();
    for (addr, names) in &table {
        for n in names {
            ensure!(by_name.insert(n.clone(), *addr).is_none(), "symbol-not-unique", "{n}");
            ensure!(
                real.iter().any(|s| s.value as u32 == *addr && derived(n, &s.name, *addr)),
                "invented-symbol",
                "{n} at {addr:#x}"
            );
        }
    }
    for s in &real {
        let names = table.get(&(s.value as u32)).cloned().unwrap_or_default();
        ensure!(
            names.iter().any(|n| derived(n, &s.name, s.value as u32)),
            "lost-symbol",
            "{s:?} {names:?}"
        );
    }
    for _ in 0..4 {
        let a = match g.below(2) {
            0 => p.text[g.usize(p.text.len())].addr + g.below(3) as u32,
            _ => g.u64() as u32,
        };
        let got = elf.debug_info().symbols.try_get_one_or_preceding(a as u64).map(|(n, o)| (n.to_string(), o));
        let want = table.iter().filter(|(x, _)| **x <= a).next_back();
        match (got, want) {
            (None, None) => {}
            (Some((n, o)), Some((x, names))) => {
                ensure!(names.contains(&n) && x + o == a, "preceding-symbol", "{a:#x}: {n}+{o:#x}")
            }
            (a, b) => return Err(Failure::new("preceding-symbol", format!("{a:?} {b:?}"))),
        }
    }
    let addr_of = |l: &str| -> Option<u32> {
        by_name.get(l).copied().or_else(|| {
            l.strip_prefix("__.L").and_then(|h| u32::from_str_radix(h, 16).ok())
        })
    };

    // --- memory
    let entries: Vec<(Option<String>, u32, Result<u32, String>)> = elf
        .take_initial_mem()
        .map(|m| {
            (
                m.label,
                m.addr,
                match m.value {
                    SingleDataValue::Value(v) => Ok(v),
                    SingleDataValue::LabelReference(l) => Err(l),
                    #[allow(unreachable_patterns)]
                    _ => Err("offset".into()),
                },
            )
        })
        .collect();
    let mut label_uses: BTreeSet<String> = BTreeSet::new();
    let mut seen = BTreeSet::new();
    for (label, addr, v) in &entries {
        ensure!(seen.insert(*addr), "memory-twice", "{addr:#x}");
        let want = p.memory.get(addr).copied().unwrap_or((0, false));
        match v {
            Ok(v) => ensure!(
                *v == want.0 && !want.1,
                "memory-value",
                "{addr:#x}: {v:#x}, expected {want:x?}"
            ),
            Err(l) => {
                label_uses.insert(l.clone());
                ensure!(
                    addr_of(l) == Some(want.0) && want.1,
                    "memory-value",
                    "{addr:#x}: label {l}, expected {want:x?}"
                );
            }
        }
        if let Some(l) = label {
            ensure!(by_name.get(l) == Some(addr), "memory-label", "{addr:#x}: {l}");
        }
    }
    for (addr, (v, _)) in &p.memory {
        ensure!(*v == 0 || seen.contains(addr), "memory-missing", "{addr:#x}: {v:#x}");
    }

    // --- code
    let start = elf.start_function().as_ref().to_string();
    ensure!(
        addr_of(&start) == Some(p.file.entry as u32),
        "start-function",
        "{start}, expected {:#x}",
        p.file.entry
    );
    label_uses.insert(start);
    let want_prover = p.file.prover.map(|(a, n)| (a as u32, (a + n) as u32)).unwrap_or((0, 0));
    ensure_eq!(elf.prover_data_bounds(), want_prover, "prover-data");

    let text_labels = elf.text_labels().clone();
    let stmts: Result<Vec<Stmt>, Failure> = catch(|| {
        elf.take_executable_statements()
            .filter_map(|s| match s {
                Statement::DebugLoc { .. } => None,
                Statement::Label(l) => Some(Ok(Stmt::Label(l.as_ref().to_string()))),
                Statement::Instruction { op, args } => Some(
                    read_lifted(op, &args, &addr_of)
                        .map(|i| Stmt::Insn(op.to_string(), i))
                        .map_err(|m| Failure::new("unreadable-instruction", format!("{op}: {m}"))),
                ),
            })
            .collect::<Result<Vec<_>, _>>()
    })
    .map_err(|m| Failure::new("statements-panic", m))?;
    let stmts = stmts?;
    let states: Vec<State> = (0..4).map(|_| random_state(g)).collect();

    // Alignment: `reach` = set of positions in the machine code at which the lifted program may stand.
    let mut labels: BTreeMap<String, u32> = BTreeMap::new();
    let mut reach: BTreeSet<usize> = BTreeSet::from([0]);
    let n = p.text.len();
    for (k, s) in stmts.iter().enumerate() {
        let mut next = BTreeSet::new();
        match s {
            Stmt::Label(l) => {
                let a = addr_of(l);
                ensure!(a.is_some(), "label-unknown", "{l}");
                labels.insert(l.clone(), a.unwrap());
                for i in &reach {
                    if *i < n && Some(p.text[*i].addr) == a {
                        next.insert(*i);
                    }
                }
                ensure!(
                    !next.is_empty(),
                    "label-misplaced",
                    "statement {k}: label {l} ({a:x?}) stands at {:x?}",
                    reach.iter().filter(|i| **i < n).map(|i| p.text[*i].addr).collect::<Vec<_>>()
                );
            }
            Stmt::Insn(op, i) => {
                match i {
                    I::Jal(_, t) | I::Br(_, _, _, t) | I::La(_, t) | I::Tail(t) => {
                        ensure!(text_labels.contains(t), "target-without-label", "{op} to {t:#x}");
                    }
                    _ => {}
                }
                for pos in &reach {
                    for len in 1..=2 {
                        if pos + len <= n {
                            let o: Vec<&Insn> = p.text[*pos..pos + len].iter().collect();
                            // A pair does not extend over a gap between segments.
                            if len == 2 && o[0].addr + o[0].len != o[1].addr {
                                continue;
                            }
                            if same_effect(i, &o, &states) {
                                next.insert(pos + len);
                            }
                        }
                    }
                }
                ensure!(
                    !next.is_empty(),
                    "different-effect",
                    "statement {k}: lifted {op} {i:x?} does not do what the code at {:x?} does",
                    reach
                        .iter()
                        .filter(|i| **i < n)
                        .map(|i| format!("{:08x}: {}", p.text[*i].addr, asm(&p.text[*i].i, p.text[*i].addr)))
                        .collect::<Vec<_>>()
                );
            }
        }
        reach = next;
    }
    ensure!(reach.contains(&n), "code-missing", "only {:?} of {n} instructions are lifted", reach);
    // Every address the program can jump to has a label in the code, under the name used.
    let have: BTreeSet<u32> = labels.values().copied().collect();
    let mut targets: BTreeSet<u32> = BTreeSet::from([p.file.entry as u32]);
    for (k, x) in p.text.iter().enumerate() {
        match &x.i {
            I::Jal(_, t) | I::Br(_, _, _, t) => {
                targets.insert(*t);
            }
            I::Jalr(_, rs1, off) if k > 0 => {
                if let I::Auipc(r, hi) = &p.text[k - 1].i {
                    if r == rs1 && p.text[k - 1].addr + 4 == x.addr {
                        targets.insert(p.text[k - 1].addr.wrapping_add(*hi).wrapping_add(*off as u32));
                    }
                }
            }
            _ => {}
        }
        if x.code_ref {
            let mut s = states[0].clone();
            exec(&x.i, x.addr, x.addr + 4, &mut s);
            if let I::Imm(_, rd, ..) = &p.text[k + 1].i {
                exec(&p.text[k + 1].i, x.addr + 4, x.addr + 8, &mut s);
                targets.insert(s.r[*rd as usize]);
            }
        }
    }
    targets.extend(p.memory.values().filter(|(_, c)| *c).map(|(v, _)| *v));
    for t in &targets {
        ensure!(have.contains(t), "target-without-label", "no label at {t:#x}");
    }
    for l in &label_uses {
        ensure!(labels.contains_key(l), "label-not-emitted", "{l}");
    }
    for s in &stmts {
        if let Stmt::Insn(op, I::Jal(_, t) | I::Br(_, _, _, t) | I::La(_, t) | I::Tail(t)) = s {
            ensure!(have.contains(t), "target-without-label", "{op} to {t:#x}");
        }
    }
    let _ = &p.text_ranges;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C28

#[derive(Clone, Debug)]
enum J {
    Other(u32),
    Jal(R, u64),
    Br(u32, R, R, u64),
    Pair { auipc_rd: R, rd: R, rs1: R, target: u64 },
    Jalr(R, R, i32),
    Auipc(R, u32),
}

fn other64(g: &mut Gen) -> u32 {
    let (rd, a, b) = (reg(g), reg(g), reg(g));
    let r = |op: u32, f3: u32, f7: u32| op | (rd as u32) << 7 | f3 << 12 | (a as u32) << 15 | (b as u32) << 20 | f7 << 25;
    let i = |op: u32, f3: u32, imm: i32| op | (rd as u32) << 7 | f3 << 12 | (a as u32) << 15 | ((imm as u32) & 0xfff) << 20;
    let imm = imm12(g);
    match g.below(12) {
        0 => enc32(&I::Imm("addi", rd, a, imm), 0, 0),
        1 => enc32(&I::Reg(*g.pick(&REG_OPS), rd, a, b), 0, 0),
        2 => enc32(&I::Load(*g.pick(&LOADS), rd, a, imm), 0, 0),
        3 => enc32(&I::Store(*g.pick(&STORES), b, a, imm), 0, 0),
        4 => i(0x03, 3, imm),                   // ld
        5 => i(0x03, 6, imm),                   // lwu
        6 => i(0x1b, 0, imm),                   // addiw
        7 => r(0x3b, 0, *g.pick(&[0u32, 0x20, 1])), // addw, subw, mulw
        8 => enc32(&I::Lui(rd, hi20(g)), 0, 0),
        9 => i(0x13, 1, imm & 63),              // slli with a 6-bit amount
        10 => {
            let o = imm as u32;
            0x23 | (o & 31) << 7 | 3 << 12 | (a as u32) << 15 | (b as u32) << 20 | ((o >> 5) & 0x7f) << 25 // sd
        }
        _ => enc32(&g.pick(&[I::Ecall, I::Ebreak, I::Fence]).clone(), 0, 0),
    }
}

fn c28(g: &mut Gen) -> CaseResult {
    let nseg = g.range(1, 2);
    let mut base = *g.pick(&[0x1000u64, 0x2_0000, 0x8000_0000, 0x7fff_ff80, 0xffff_ffff_0000_0000, 0x1_0000_0000, 0x7fff_ffff_ff00]);
    let mut segs: Vec<(u64, Vec<J>, u64)> = vec![];
    for _ in 0..nseg {
        let n = g.range(1, 16);
        let mut code = vec![];
        let mut addr = base;
        for _ in 0..n {
            let off = |g: &mut Gen, lim: i64| -> i64 {
                match g.below(4) {
                    0 | 1 => g.range_i(-16, 16) * 4,
                    2 => (g.range_i(-lim, lim - 1) / 2) * 2,
                    _ => *g.pick(&[-lim, lim - 2, 4, 8, 0, 2, -2]),
                }
            };
            let j = match g.below(10) {
                0..=3 => J::Other(other64(g)),
                4 => J::Jal(reg(g), addr.wrapping_add(off(g, 1 << 20) as u64)),
                5 => J::Br(*g.pick(&[0u32, 1, 4, 5, 6, 7]), reg(g), reg(g), addr.wrapping_add(off(g, 1 << 12) as u64)),
                6 | 7 => {
                    let delta = match g.below(3) {
                        0 => g.range_i(-64, 64) * 2,
                        1 => g.range_i(-(1 << 24), 1 << 24),
                        _ => g.range_i(-(1 << 31) + 4096, (1 << 31) - 4096),
                    };
                    let auipc_rd = nzreg(g);
                    J::Pair {
                        auipc_rd,
                        rd: match g.below(3) {
                            0 => auipc_rd,
                            1 => 0,
                            _ => reg(g),
                        },
                        // mostly a matching pair
                        rs1: if g.chance(1, 6) { reg(g) } else { auipc_rd },
                        target: addr.wrapping_add(delta as u64),
                    }
                }
                8 => J::Jalr(reg(g), reg(g), imm12(g)),
                _ => J::Auipc(nzreg(g), hi20(g)),
            };
            addr += if matches!(j, J::Pair { .. }) { 8 } else { 4 };
            code.push(j);
        }
        let bss = if g.chance(1, 4) { 4 * g.below(8) } else { 0 };
        segs.push((base, code, bss));
        base = addr + bss + 4 + 4 * g.below(3) * g.below(2000);
    }
    let mut must: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    let mut segments = vec![];
    let mut words: Vec<(u64, u32)> = vec![];
    for (base, code, bss) in &segs {
        let mut bytes: Vec<u8> = vec![];
        let mut a = *base;
        for j in code {
            let mut put = |w: u32, a: &mut u64| {
                bytes.extend(w.to_le_bytes());
                words.push((*a, w));
                *a += 4;
            };
            match j {
                J::Other(w) => put(*w, &mut a),
                J::Jal(rd, t) => put(enc_jal(*rd, t.wrapping_sub(a) as i64 as i32), &mut a),
                J::Br(f3, x, y, t) => put(enc_branch(*f3, *x, *y, t.wrapping_sub(a) as i64 as i32), &mut a),
                J::Pair { auipc_rd, rd, rs1, target } => {
                    let (hi, lo) = split(target.wrapping_sub(a) as u32);
                    put(enc32(&I::Auipc(*auipc_rd, hi), 0, 0), &mut a);
                    put(enc32(&I::Jalr(*rd, *rs1, lo), 0, 0), &mut a);
                }
                J::Jalr(rd, rs1, off) => put(enc32(&I::Jalr(*rd, *rs1, *off), 0, 0), &mut a),
                J::Auipc(rd, hi) => put(enc32(&I::Auipc(*rd, *hi), 0, 0), &mut a),
            }
        }
        let len = bytes.len() as u64;
        segments.push(Segment { vaddr: *base, bytes, memsz: len + bss, exec: true });
    }
    // Static targets, read off the machine code by a decoder of our own.
    for (k, (a, w)) in words.iter().enumerate() {
        let t = match w & 0x7f {
            0x6f => {
                let imm = ((w >> 31) << 20) | ((w >> 12) & 0xff) << 12 | ((w >> 20) & 1) << 11 | ((w >> 21) & 0x3ff) << 1;
                Some(a.wrapping_add((((imm << 11) as i32) >> 11) as i64 as u64))
            }
            0x63 => {
                let imm = ((w >> 31) << 12) | ((w >> 7) & 1) << 11 | ((w >> 25) & 0x3f) << 5 | ((w >> 8) & 15) << 1;
                Some(a.wrapping_add((((imm << 19) as i32) >> 19) as i64 as u64))
            }
            0x67 if k > 0 => {
                let (pa, pw) = words[k - 1];
                let (prd, rs1) = ((pw >> 7) & 31, (w >> 15) & 31);
                if pa + 4 == *a && pw & 0x7f == 0x17 && prd != 0 && prd == rs1 {
                    g.label("auipc+jalr");
                    g.nontrivial();
                    let hi = (pw & 0xffff_f000) as i32 as i64;
                    let lo = ((*w as i32) >> 20) as i64;
                    Some(pa.wrapping_add(hi as u64).wrapping_add(lo as u64) & !1)
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(t) = t {
            must.entry(t).or_default().push(*a);
        }
    }
    if g.bool() {
        let n = 8 * g.usize(4);
        segments.push(Segment { vaddr: base + 0x10000, bytes: vec![0x5a; n], memsz: n as u64 + 16, exec: false });
    }
    let mut symbols = vec![];
    let nsym = g.range(0, 6);
    for _ in 0..nsym {
        let s = g.pick(&segments).clone();
        let value = match g.below(6) {
            0 => 0,
            1 => s.vaddr + s.memsz,
            2 => s.vaddr,
            _ => s.vaddr + g.below(s.memsz.max(1)),
        };
        let name = match g.below(5) {
            0 => String::new(),
            _ => g.pick(&["main", "f", "g", "h"]).to_string(),
        };
        symbols.push(Symbol { name, value, kind: *g.pick(&[2u8, 0, 1]), global: g.bool() });
    }
    let entry = g.pick(&words).0;
    g.shuffle(&mut segments);
    let file = ElfFile {
        class64: true,
        pie: g.bool(),
        entry,
        segments: segments.clone(),
        symbols: symbols.clone(),
        sections: g.chance(7, 8),
        ..Default::default()
    };
    g.note(|| format!("entry {entry:#x} symbols {symbols:?} code {segs:x?}"));
    let r = compute_jumpdests_from_buffer(&file.write());
    ensure_eq!(r.entry_point, entry, "entry");
    let pc_base = segments.iter().filter(|s| s.exec).map(|s| s.vaddr).min().unwrap();
    ensure_eq!(r.pc_base, pc_base, "pc-base");
    ensure!(r.jumpdests.contains(&entry), "entry-missing", "{entry:#x}");
    let in_text = |a: u64| segments.iter().any(|s| s.exec && a >= s.vaddr && a < s.vaddr + s.memsz);
    let symbols = if file.sections { symbols } else { vec![] };
    let mut want: Vec<(u64, String)> = vec![];
    for s in symbols.iter().filter(|s| s.value != 0 && in_text(s.value)) {
        ensure!(r.jumpdests.contains(&s.value), "symbol-missing", "{s:?}");
        want.push((s.value, s.name.clone()));
    }
    let named = |v: &[(u64, String)]| v.iter().filter(|x| !x.1.is_empty()).cloned().collect::<BTreeSet<_>>();
    ensure_eq!(named(&r.symbols), named(&want), "symbols");
    for (t, from) in &must {
        ensure!(
            r.jumpdests.contains(t),
            "target-missing",
            "target {t:#x} of the jump at {:x?}; found {:x?}",
            from,
            r.jumpdests
        );
    }
    let symbol_addrs: BTreeSet<u64> = want.iter().map(|x| x.0).collect();
    for (t, from) in &must {
        if !symbol_addrs.contains(t) {
            for a in from {
                ensure!(
                    r.jumpdests_with_debug_info.get(t).is_some_and(|v| v.iter().any(|d| d.from_addr == *a)),
                    "source-missing",
                    "jump {a:#x} -> {t:#x}"
                );
            }
        }
    }
    for (t, from) in &r.jumpdests_with_debug_info {
        for d in from {
            ensure!(
                must.get(t).is_some_and(|v| v.contains(&d.from_addr)),
                "invented-source",
                "{:#x} -> {t:#x} ({})",
                d.from_addr,
                d.instruction
            );
        }
    }
    Ok(())
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("dump") {
        dump();
        return;
    }
    run(vec![
        Property {
            id: "C27",
            rule: "at least six instructions and two pairs or relocated words",
            assumptions: &[
                "AUIPC is followed by an instruction the loader supports (addi on the same register, load into the same register, store, call, tail) or ends its segment; JALR on its own has offset 0",
                "no jump enters the second instruction of a fused address computation, call or system call",
                "`la` with two registers leaves the first unspecified, `tail` leaves t1 unspecified, a fused system call leaves t0 unspecified (documented)",
                "4-byte aligned data segments and relocated words",
            ],
            subs: vec![Sub { name: "lift", f: c27, quick: 4_000_000, thorough: 150_000_000 }],
        },
        Property {
            id: "C28",
            rule: "the code contains an auipc+jalr pair on the same register",
            assumptions: &["code of 32-bit encodings only (the analysis refuses others)"],
            subs: vec![Sub { name: "jumpdests", f: c28, quick: 6_000_000, thorough: 200_000_000 }],
        },
    ]);
}

/// Prints encodings with their assembler text, to be compared with an independent assembler.
fn dump() {
    let mut g = Gen::for_dump(7);
    let mut out = vec![];
    for _ in 0..3000 {
        let mut i = if g.bool() { plain(&mut g) } else { compressible(&mut g) };
        if g.chance(1, 4) {
            let off = (g.range_i(-2000, 2000) * 2) as i32;
            i = I::Jal(reg(&mut g), 0x1000u32.wrapping_add(off as u32));
            if g.bool() {
                i = I::Jal(g.below(2) as R, 0x1000u32.wrapping_add(off as u32 & 0x7ff));
            }
        } else if g.chance(1, 4) {
            let off = (g.range_i(-2048, 2047) * 2) as i32;
            i = I::Br(*g.pick(&BRANCHES), reg(&mut g), reg(&mut g), 0x1000u32.wrapping_add(off as u32));
            if g.bool() {
                let off = (g.range_i(-128, 127) * 2) as i32;
                i = I::Br(*g.pick(&["beq", "bne"]), creg(&mut g), 0, 0x1000u32.wrapping_add(off as u32));
            }
        }
        out.push((asm(&i, 0x1000), enc32(&i, 0x1000, 0), enc16(&i, 0x1000)));
    }
    for (a, w, c) in out {
        println!("{a}|{w:08x}|{}", c.map(|c| format!("{c:04x}")).unwrap_or_default());
    }
}
