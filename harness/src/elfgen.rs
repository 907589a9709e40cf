//! ELF writer and RISC-V encoder / reference semantics, written from the specifications.

use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------------
// Instructions

pub type R = u8;

/// Abstract instruction. Jump targets are absolute addresses.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum I {
    Lui(R, u32),
    Auipc(R, u32),
    Imm(&'static str, R, R, i32),
    Reg(&'static str, R, R, R),
    Load(&'static str, R, R, i32),
    /// (op, value register, base register, offset)
    Store(&'static str, R, R, i32),
    Jal(R, u32),
    Jalr(R, R, i32),
    Br(&'static str, R, R, u32),
    /// (op, rd, value register, address register)
    Amo(&'static str, R, R, R),
    Lr(R, R),
    /// (rd, value register, address register)
    Sc(R, R, R),
    Fence,
    Ecall,
    Ebreak,
    Unimp,
    // lifted only
    Li(R, u32),
    La(R, u32),
    Tail(u32),
    Sys(u8),
}

pub const IMM_OPS: [&str; 9] = [
    "addi", "slti", "sltiu", "xori", "ori", "andi", "slli", "srli", "srai",
];
pub const REG_OPS: [&str; 18] = [
    "add", "sub", "sll", "slt", "sltu", "xor", "srl", "sra", "or", "and", "mul", "mulh", "mulhsu",
    "mulhu", "div", "divu", "rem", "remu",
];
pub const LOADS: [&str; 5] = ["lb", "lh", "lw", "lbu", "lhu"];
pub const STORES: [&str; 3] = ["sb", "sh", "sw"];
pub const BRANCHES: [&str; 6] = ["beq", "bne", "blt", "bge", "bltu", "bgeu"];
pub const AMOS: [&str; 9] = [
    "amoswap.w",
    "amoadd.w",
    "amoxor.w",
    "amoand.w",
    "amoor.w",
    "amomin.w",
    "amomax.w",
    "amominu.w",
    "amomaxu.w",
];

fn rtype(op: u32, f3: u32, f7: u32, rd: R, rs1: R, rs2: R) -> u32 {
    op | (rd as u32) << 7 | f3 << 12 | (rs1 as u32) << 15 | (rs2 as u32) << 20 | f7 << 25
}
fn itype(op: u32, f3: u32, rd: R, rs1: R, imm: i32) -> u32 {
    op | (rd as u32) << 7 | f3 << 12 | (rs1 as u32) << 15 | ((imm as u32) & 0xfff) << 20
}

/// The 32-bit encoding of an instruction standing at `pc`.
/// `aqrl` is used by atomics only.
pub fn enc32(i: &I, pc: u32, aqrl: u32) -> u32 {
    match i {
        I::Lui(rd, v) => 0x37 | (*rd as u32) << 7 | (v & 0xffff_f000),
        I::Auipc(rd, v) => 0x17 | (*rd as u32) << 7 | (v & 0xffff_f000),
        I::Imm(op, rd, rs1, imm) => match *op {
            "addi" => itype(0x13, 0, *rd, *rs1, *imm),
            "slti" => itype(0x13, 2, *rd, *rs1, *imm),
            "sltiu" => itype(0x13, 3, *rd, *rs1, *imm),
            "xori" => itype(0x13, 4, *rd, *rs1, *imm),
            "ori" => itype(0x13, 6, *rd, *rs1, *imm),
            "andi" => itype(0x13, 7, *rd, *rs1, *imm),
            "slli" => itype(0x13, 1, *rd, *rs1, *imm & 31),
            "srli" => itype(0x13, 5, *rd, *rs1, *imm & 31),
            "srai" => itype(0x13, 5, *rd, *rs1, (*imm & 31) | 0x400),
            _ => unreachable!(),
        },
        I::Reg(op, rd, rs1, rs2) => {
            let (f3, f7) = match *op {
                "add" => (0, 0),
                "sub" => (0, 0x20),
                "sll" => (1, 0),
                "slt" => (2, 0),
                "sltu" => (3, 0),
                "xor" => (4, 0),
                "srl" => (5, 0),
                "sra" => (5, 0x20),
                "or" => (6, 0),
                "and" => (7, 0),
                "mul" => (0, 1),
                "mulh" => (1, 1),
                "mulhsu" => (2, 1),
                "mulhu" => (3, 1),
                "div" => (4, 1),
                "divu" => (5, 1),
                "rem" => (6, 1),
                "remu" => (7, 1),
                _ => unreachable!(),
            };
            rtype(0x33, f3, f7, *rd, *rs1, *rs2)
        }
        I::Load(op, rd, rs1, off) => {
            let f3 = match *op {
                "lb" => 0,
                "lh" => 1,
                "lw" => 2,
                "lbu" => 4,
                "lhu" => 5,
                _ => unreachable!(),
            };
            itype(0x03, f3, *rd, *rs1, *off)
        }
        I::Store(op, rs2, rs1, off) => {
            let f3 = STORES.iter().position(|s| s == op).unwrap() as u32;
            let o = *off as u32;
            0x23 | (o & 31) << 7
                | f3 << 12
                | (*rs1 as u32) << 15
                | (*rs2 as u32) << 20
                | ((o >> 5) & 0x7f) << 25
        }
        I::Jal(rd, t) => enc_jal(*rd, t.wrapping_sub(pc) as i32),
        I::Jalr(rd, rs1, off) => itype(0x67, 0, *rd, *rs1, *off),
        I::Br(op, rs1, rs2, t) => {
            let f3 = match *op {
                "beq" => 0,
                "bne" => 1,
                "blt" => 4,
                "bge" => 5,
                "bltu" => 6,
                "bgeu" => 7,
                _ => unreachable!(),
            };
            enc_branch(f3, *rs1, *rs2, t.wrapping_sub(pc) as i32)
        }
        I::Amo(op, rd, rs2, rs1) => {
            let f5 = match *op {
                "amoswap.w" => 1,
                "amoadd.w" => 0,
                "amoxor.w" => 4,
                "amoand.w" => 12,
                "amoor.w" => 8,
                "amomin.w" => 16,
                "amomax.w" => 20,
                "amominu.w" => 24,
                "amomaxu.w" => 28,
                _ => unreachable!(),
            };
            rtype(0x2f, 2, f5 << 2 | aqrl, *rd, *rs1, *rs2)
        }
        I::Lr(rd, rs1) => rtype(0x2f, 2, 2 << 2 | aqrl, *rd, *rs1, 0),
        I::Sc(rd, rs2, rs1) => rtype(0x2f, 2, 3 << 2 | aqrl, *rd, *rs1, *rs2),
        I::Fence => 0x0ff0_000f,
        I::Ecall => 0x73,
        I::Ebreak => 0x0010_0073,
        I::Unimp => 0xc000_1073,
        I::Li(..) | I::La(..) | I::Tail(..) | I::Sys(..) => unreachable!(),
    }
}

pub fn enc_jal(rd: R, off: i32) -> u32 {
    assert!((-(1 << 20)..1 << 20).contains(&off) && off % 2 == 0);
    let o = off as u32;
    0x6f | (rd as u32) << 7
        | ((o >> 12) & 0xff) << 12
        | ((o >> 11) & 1) << 20
        | ((o >> 1) & 0x3ff) << 21
        | ((o >> 20) & 1) << 31
}
pub fn enc_branch(f3: u32, rs1: R, rs2: R, off: i32) -> u32 {
    assert!((-4096..4096).contains(&off) && off % 2 == 0);
    let o = off as u32;
    0x63 | ((o >> 11) & 1) << 7
        | ((o >> 1) & 15) << 8
        | f3 << 12
        | (rs1 as u32) << 15
        | (rs2 as u32) << 20
        | ((o >> 5) & 0x3f) << 25
        | ((o >> 12) & 1) << 31
}

fn bits(v: u32, map: &[(u32, u32)]) -> u32 {
    // (source bit, destination bit)
    map.iter().fold(0, |a, (s, d)| a | ((v >> s) & 1) << d)
}
fn creg(r: R) -> Option<u32> {
    (8..16).contains(&r).then(|| r as u32 - 8)
}
fn imm6(v: i32) -> u32 {
    bits(v as u32, &[(0, 2), (1, 3), (2, 4), (3, 5), (4, 6), (5, 12)])
}

/// The compressed encoding, if the instruction has one.
pub fn enc16(i: &I, pc: u32) -> Option<u16> {
    let fits6 = |v: i32| (-32..32).contains(&v);
    let w = match i {
        I::Imm("addi", 0, 0, 0) => 0x0001,
        I::Imm("addi", 2, 2, v) if *v != 0 && v % 16 == 0 && (-512..512).contains(v) && !fits6(*v) => {
            0x6101 | bits(*v as u32, &[(9, 12), (4, 6), (6, 5), (8, 4), (7, 3), (5, 2)])
        }
        I::Imm("addi", rd, rs1, v) if rd == rs1 && *rd != 0 && *v != 0 && fits6(*v) => {
            0x0001 | (*rd as u32) << 7 | imm6(*v)
        }
        I::Imm("addi", rd, 0, v) if *rd != 0 && fits6(*v) => 0x4001 | (*rd as u32) << 7 | imm6(*v),
        I::Imm("addi", rd, 2, v) if *v > 0 && v % 4 == 0 && *v < 1024 => {
            creg(*rd)? << 2
                | bits(
                    *v as u32,
                    &[(5, 12), (4, 11), (9, 10), (8, 9), (7, 8), (6, 7), (2, 6), (3, 5)],
                )
        }
        I::Lui(rd, v) if *rd != 0 && *rd != 2 && *v != 0 && {
            let s = *v as i32 >> 12;
            (-32..32).contains(&s) && s != 0
        } =>
        {
            0x6001 | (*rd as u32) << 7 | imm6(*v as i32 >> 12)
        }
        I::Imm("srli", rd, rs1, v) if rd == rs1 && *v > 0 => 0x8001 | creg(*rd)? << 7 | imm6(*v),
        I::Imm("srai", rd, rs1, v) if rd == rs1 && *v > 0 => 0x8401 | creg(*rd)? << 7 | imm6(*v),
        I::Imm("andi", rd, rs1, v) if rd == rs1 && fits6(*v) => 0x8801 | creg(*rd)? << 7 | imm6(*v),
        I::Imm("slli", rd, rs1, v) if rd == rs1 && *rd != 0 && *v > 0 => {
            0x0002 | (*rd as u32) << 7 | imm6(*v)
        }
        I::Load("lw", rd, 2, o) if *rd != 0 && *o >= 0 && *o < 256 && o % 4 == 0 => {
            0x4002 | (*rd as u32) << 7
                | bits(*o as u32, &[(5, 12), (4, 6), (3, 5), (2, 4), (7, 3), (6, 2)])
        }
        I::Load("lw", rd, rs1, o) if *o >= 0 && *o < 128 && o % 4 == 0 => {
            0x4000 | creg(*rs1)? << 7
                | creg(*rd)? << 2
                | bits(*o as u32, &[(5, 12), (4, 11), (3, 10), (2, 6), (6, 5)])
        }
        I::Store("sw", rs2, 2, o) if *o >= 0 && *o < 256 && o % 4 == 0 => {
            0xc002 | (*rs2 as u32) << 2
                | bits(*o as u32, &[(5, 12), (4, 11), (3, 10), (2, 9), (7, 8), (6, 7)])
        }
        I::Store("sw", rs2, rs1, o) if *o >= 0 && *o < 128 && o % 4 == 0 => {
            0xc000 | creg(*rs1)? << 7
                | creg(*rs2)? << 2
                | bits(*o as u32, &[(5, 12), (4, 11), (3, 10), (2, 6), (6, 5)])
        }
        I::Reg("sub", rd, rs1, rs2) if rd == rs1 => 0x8c01 | creg(*rd)? << 7 | creg(*rs2)? << 2,
        I::Reg("xor", rd, rs1, rs2) if rd == rs1 => 0x8c21 | creg(*rd)? << 7 | creg(*rs2)? << 2,
        I::Reg("or", rd, rs1, rs2) if rd == rs1 => 0x8c41 | creg(*rd)? << 7 | creg(*rs2)? << 2,
        I::Reg("and", rd, rs1, rs2) if rd == rs1 => 0x8c61 | creg(*rd)? << 7 | creg(*rs2)? << 2,
        I::Reg("add", rd, 0, rs2) if *rd != 0 && *rs2 != 0 => {
            0x8002 | (*rd as u32) << 7 | (*rs2 as u32) << 2
        }
        I::Reg("add", rd, rs1, rs2) if rd == rs1 && *rd != 0 && *rs2 != 0 => {
            0x9002 | (*rd as u32) << 7 | (*rs2 as u32) << 2
        }
        I::Jal(rd @ (0 | 1), t) => {
            let o = t.wrapping_sub(pc) as i32;
            if !(-2048..2048).contains(&o) {
                return None;
            }
            (if *rd == 0 { 0xa001 } else { 0x2001 })
                | bits(
                    o as u32,
                    &[
                        (11, 12),
                        (4, 11),
                        (9, 10),
                        (8, 9),
                        (10, 8),
                        (6, 7),
                        (7, 6),
                        (3, 5),
                        (2, 4),
                        (1, 3),
                        (5, 2),
                    ],
                )
        }
        I::Br(op @ ("beq" | "bne"), rs1, 0, t) => {
            let o = t.wrapping_sub(pc) as i32;
            if !(-256..256).contains(&o) {
                return None;
            }
            (if *op == "beq" { 0xc001 } else { 0xe001 })
                | creg(*rs1)? << 7
                | bits(
                    o as u32,
                    &[(8, 12), (4, 11), (3, 10), (7, 6), (6, 5), (2, 4), (1, 3), (5, 2)],
                )
        }
        I::Jalr(0, rs1, 0) if *rs1 != 0 => 0x8002 | (*rs1 as u32) << 7,
        I::Jalr(1, rs1, 0) if *rs1 != 0 => 0x9002 | (*rs1 as u32) << 7,
        I::Ebreak => 0x9002,
        I::Unimp => 0,
        _ => return None,
    };
    Some(w as u16)
}

// ---------------------------------------------------------------------------------------------
// Semantics

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Ecall(u32),
    Ebreak,
    Unimp,
    Lr(u32),
    Sc(u32, u32),
}

#[derive(Clone, Debug)]
pub struct State {
    pub r: [u32; 32],
    pub mem: BTreeMap<u32, u8>,
    pub salt: u64,
    pub events: Vec<Ev>,
}

impl State {
    fn byte(&self, a: u32) -> u8 {
        self.mem.get(&a).copied().unwrap_or_else(|| {
            let mut z = (a as u64 ^ self.salt).wrapping_mul(0xBF58476D1CE4E5B9);
            z ^= z >> 31;
            (z.wrapping_mul(0x94D049BB133111EB) >> 56) as u8
        })
    }
    fn read(&self, a: u32, n: u32) -> u32 {
        (0..n).fold(0, |v, k| v | (self.byte(a.wrapping_add(k)) as u32) << (8 * k))
    }
    fn write(&mut self, a: u32, n: u32, v: u32) {
        for k in 0..n {
            self.mem.insert(a.wrapping_add(k), (v >> (8 * k)) as u8);
        }
    }
    fn set(&mut self, rd: R, v: u32) {
        if rd != 0 {
            self.r[rd as usize] = v;
        }
    }
}

/// Executes one instruction at `pc` whose successor in memory is `next`; returns the next pc.
pub fn exec(i: &I, pc: u32, next: u32, s: &mut State) -> u32 {
    let r = |s: &State, x: R| s.r[x as usize];
    match i {
        I::Lui(rd, v) => s.set(*rd, *v),
        I::Auipc(rd, v) => s.set(*rd, pc.wrapping_add(*v)),
        I::Li(rd, v) | I::La(rd, v) => s.set(*rd, *v),
        I::Imm(op, rd, rs1, imm) => {
            let (a, b) = (r(s, *rs1), *imm as u32);
            let v = match *op {
                "addi" => a.wrapping_add(b),
                "slti" => ((a as i32) < (b as i32)) as u32,
                "sltiu" => (a < b) as u32,
                "xori" => a ^ b,
                "ori" => a | b,
                "andi" => a & b,
                "slli" => a << (b & 31),
                "srli" => a >> (b & 31),
                "srai" => ((a as i32) >> (b & 31)) as u32,
                _ => unreachable!(),
            };
            s.set(*rd, v)
        }
        I::Reg(op, rd, rs1, rs2) => {
            let (a, b) = (r(s, *rs1), r(s, *rs2));
            let (sa, sb) = (a as i32, b as i32);
            let v = match *op {
                "add" => a.wrapping_add(b),
                "sub" => a.wrapping_sub(b),
                "sll" => a << (b & 31),
                "slt" => (sa < sb) as u32,
                "sltu" => (a < b) as u32,
                "xor" => a ^ b,
                "srl" => a >> (b & 31),
                "sra" => (sa >> (b & 31)) as u32,
                "or" => a | b,
                "and" => a & b,
                "mul" => a.wrapping_mul(b),
                "mulh" => ((sa as i64 * sb as i64) >> 32) as u32,
                "mulhsu" => ((sa as i64 * b as i64) >> 32) as u32,
                "mulhu" => ((a as u64 * b as u64) >> 32) as u32,
                "div" => {
                    if b == 0 {
                        u32::MAX
                    } else {
                        sa.wrapping_div(sb) as u32
                    }
                }
                "divu" => a.checked_div(b).unwrap_or(u32::MAX),
                "rem" => {
                    if b == 0 {
                        a
                    } else {
                        sa.wrapping_rem(sb) as u32
                    }
                }
                "remu" => a.checked_rem(b).unwrap_or(a),
                _ => unreachable!(),
            };
            s.set(*rd, v)
        }
        I::Load(op, rd, rs1, off) => {
            let a = r(s, *rs1).wrapping_add(*off as u32);
            let v = match *op {
                "lb" => s.read(a, 1) as u8 as i8 as u32,
                "lh" => s.read(a, 2) as u16 as i16 as u32,
                "lw" => s.read(a, 4),
                "lbu" => s.read(a, 1),
                "lhu" => s.read(a, 2),
                _ => unreachable!(),
            };
            s.set(*rd, v)
        }
        I::Store(op, rs2, rs1, off) => {
            let a = r(s, *rs1).wrapping_add(*off as u32);
            let n = match *op {
                "sb" => 1,
                "sh" => 2,
                _ => 4,
            };
            let v = r(s, *rs2);
            s.write(a, n, v)
        }
        I::Jal(rd, t) => {
            s.set(*rd, next);
            return *t;
        }
        I::Tail(t) => return *t,
        I::Jalr(rd, rs1, off) => {
            let t = r(s, *rs1).wrapping_add(*off as u32) & !1;
            s.set(*rd, next);
            return t;
        }
        I::Br(op, rs1, rs2, t) => {
            let (a, b) = (r(s, *rs1), r(s, *rs2));
            let (sa, sb) = (a as i32, b as i32);
            let taken = match *op {
                "beq" => a == b,
                "bne" => a != b,
                "blt" => sa < sb,
                "bge" => sa >= sb,
                "bltu" => a < b,
                "bgeu" => a >= b,
                _ => unreachable!(),
            };
            if taken {
                return *t;
            }
        }
        I::Amo(op, rd, rs2, rs1) => {
            let a = r(s, *rs1);
            let b = r(s, *rs2);
            let old = s.read(a, 4);
            let v = match *op {
                "amoswap.w" => b,
                "amoadd.w" => old.wrapping_add(b),
                "amoxor.w" => old ^ b,
                "amoand.w" => old & b,
                "amoor.w" => old | b,
                "amomin.w" => (old as i32).min(b as i32) as u32,
                "amomax.w" => (old as i32).max(b as i32) as u32,
                "amominu.w" => old.min(b),
                "amomaxu.w" => old.max(b),
                _ => unreachable!(),
            };
            s.write(a, 4, v);
            s.set(*rd, old);
        }
        I::Lr(rd, rs1) => {
            let a = r(s, *rs1);
            s.events.push(Ev::Lr(a));
            let v = s.read(a, 4);
            s.set(*rd, v);
        }
        I::Sc(rd, rs2, rs1) => {
            let (v, a) = (r(s, *rs2), r(s, *rs1));
            s.events.push(Ev::Sc(a, v));
            let ok = (s.salt & 1) as u32;
            s.set(*rd, ok);
        }
        I::Fence => {}
        I::Ecall => s.events.push(Ev::Ecall(s.r[5])),
        I::Sys(n) => s.events.push(Ev::Ecall(*n as u32)),
        I::Ebreak => s.events.push(Ev::Ebreak),
        I::Unimp => s.events.push(Ev::Unimp),
    }
    next
}

/// Assembler text (used to cross-check the encoder with an independent assembler during development).
pub fn asm(i: &I, pc: u32) -> String {
    let off = |t: &u32| (t.wrapping_sub(pc) as i32).to_string();
    match i {
        I::Lui(rd, v) => format!("lui x{rd}, {}", v >> 12),
        I::Auipc(rd, v) => format!("auipc x{rd}, {}", v >> 12),
        I::Imm(op, rd, rs1, v) => format!("{op} x{rd}, x{rs1}, {v}"),
        I::Reg(op, rd, rs1, rs2) => format!("{op} x{rd}, x{rs1}, x{rs2}"),
        I::Load(op, rd, rs1, v) => format!("{op} x{rd}, {v}(x{rs1})"),
        I::Store(op, rs2, rs1, v) => format!("{op} x{rs2}, {v}(x{rs1})"),
        I::Jal(rd, t) => format!("jal x{rd}, {}", off(t)),
        I::Jalr(rd, rs1, v) => format!("jalr x{rd}, {v}(x{rs1})"),
        I::Br(op, a, b, t) => format!("{op} x{a}, x{b}, {}", off(t)),
        I::Amo(op, rd, rs2, rs1) => format!("{op} x{rd}, x{rs2}, (x{rs1})"),
        I::Lr(rd, rs1) => format!("lr.w x{rd}, (x{rs1})"),
        I::Sc(rd, rs2, rs1) => format!("sc.w x{rd}, x{rs2}, (x{rs1})"),
        I::Fence => "fence".into(),
        I::Ecall => "ecall".into(),
        I::Ebreak => "ebreak".into(),
        I::Unimp => "unimp".into(),
        other => format!("{other:?}"),
    }
}

// ---------------------------------------------------------------------------------------------
// ELF files

#[derive(Clone, Debug)]
pub struct Segment {
    pub vaddr: u64,
    pub bytes: Vec<u8>,
    pub memsz: u64,
    pub exec: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Symbol {
    pub name: String,
    pub value: u64,
    /// 0 = notype, 1 = object, 2 = function
    pub kind: u8,
    pub global: bool,
}
pub const R_RISCV_32: u32 = 1;
pub const R_RISCV_RELATIVE: u32 = 3;
pub const R_RISCV_HI20: u32 = 26;
pub const R_RISCV_LO12_I: u32 = 27;

#[derive(Clone, Debug)]
pub struct Rela {
    pub offset: u64,
    pub kind: u32,
    pub addend: i64,
}

#[derive(Clone, Debug, Default)]
pub struct ElfFile {
    pub class64: bool,
    pub pie: bool,
    pub entry: u64,
    pub segments: Vec<Segment>,
    /// (vaddr, memsz) of the prover data segment.
    pub prover: Option<(u64, u64)>,
    pub symbols: Vec<Symbol>,
    /// Relocation sections (`--emit-relocs`).
    pub section_relas: Vec<Vec<Rela>>,
    /// (vaddr of the relocation table, number of entries): the table itself is part of a segment.
    pub dyn_rela: Option<(u64, u64)>,
    /// Emit section headers.
    pub sections: bool,
}

impl ElfFile {
    fn word(&self, out: &mut Vec<u8>, v: u64) {
        if self.class64 {
            out.extend(v.to_le_bytes())
        } else {
            out.extend((v as u32).to_le_bytes())
        }
    }
    pub fn rela_bytes(class64: bool, r: &Rela) -> Vec<u8> {
        let mut out = vec![];
        if class64 {
            out.extend(r.offset.to_le_bytes());
            out.extend((r.kind as u64).to_le_bytes());
            out.extend(r.addend.to_le_bytes());
        } else {
            out.extend((r.offset as u32).to_le_bytes());
            out.extend((r.kind & 0xff).to_le_bytes());
            out.extend((r.addend as i32).to_le_bytes());
        }
        out
    }

    pub fn write(&self) -> Vec<u8> {
        let (ehsize, phsize, shsize) = if self.class64 { (64, 56, 64) } else { (52, 32, 40) };
        struct Ph {
            kind: u32,
            flags: u32,
            offset: u64,
            vaddr: u64,
            filesz: u64,
            memsz: u64,
        }
        let mut phs: Vec<Ph> = vec![];
        let num_ph = self.segments.len()
            + self.prover.is_some() as usize
            + self.dyn_rela.is_some() as usize;
        let mut body: Vec<u8> = vec![];
        let base = (ehsize + phsize * num_ph) as u64;
        for s in &self.segments {
            while (base + body.len() as u64) % 4 != 0 {
                body.push(0xAA);
            }
            phs.push(Ph {
                kind: 1,
                flags: if s.exec { 5 } else { 6 },
                offset: base + body.len() as u64,
                vaddr: s.vaddr,
                filesz: s.bytes.len() as u64,
                memsz: s.memsz,
            });
            body.extend(&s.bytes);
        }
        if let Some((vaddr, memsz)) = self.prover {
            phs.push(Ph {
                kind: 0x6000_00da,
                flags: 4,
                offset: base,
                vaddr,
                filesz: 0,
                memsz,
            });
        }
        if let Some((rela, n)) = self.dyn_rela {
            let entsize = if self.class64 { 24 } else { 12 };
            let mut d = vec![];
            for (tag, v) in [(7u64, rela), (8, n * entsize), (9, entsize), (0, 0)] {
                self.word(&mut d, tag);
                self.word(&mut d, v);
            }
            while (base + body.len() as u64) % 8 != 0 {
                body.push(0xAA);
            }
            phs.push(Ph {
                kind: 2,
                flags: 6,
                offset: base + body.len() as u64,
                vaddr: 0,
                filesz: d.len() as u64,
                memsz: d.len() as u64,
            });
            body.extend(d);
        }
        // sections
        struct Sh {
            name: u32,
            kind: u32,
            offset: u64,
            size: u64,
            link: u32,
            entsize: u64,
        }
        let mut shs: Vec<Sh> = vec![];
        if self.sections {
            let mut names = vec![0u8];
            let mut name = |s: &str| -> u32 {
                let p = names.len() as u32;
                names.extend(s.as_bytes());
                names.push(0);
                p
            };
            shs.push(Sh { name: 0, kind: 0, offset: 0, size: 0, link: 0, entsize: 0 });
            let mut strtab = vec![0u8];
            let mut symtab = vec![0u8; if self.class64 { 24 } else { 16 }];
            for s in &self.symbols {
                let pos = if s.name.is_empty() {
                    0
                } else {
                    let p = strtab.len();
                    strtab.extend(s.name.as_bytes());
                    strtab.push(0);
                    p
                } as u32;
                let info = (s.global as u8) << 4 | s.kind;
                symtab.extend(pos.to_le_bytes());
                if self.class64 {
                    symtab.push(info);
                    symtab.push(0);
                    symtab.extend(1u16.to_le_bytes());
                    symtab.extend(s.value.to_le_bytes());
                    symtab.extend(0u64.to_le_bytes());
                } else {
                    symtab.extend((s.value as u32).to_le_bytes());
                    symtab.extend(0u32.to_le_bytes());
                    symtab.push(info);
                    symtab.push(0);
                    symtab.extend(1u16.to_le_bytes());
                }
            }
            let mut add = |body: &mut Vec<u8>, name: u32, kind: u32, link: u32, entsize: u64, bytes: &[u8]| {
                while (base + body.len() as u64) % 8 != 0 {
                    body.push(0xAA);
                }
                shs.push(Sh {
                    name,
                    kind,
                    offset: base + body.len() as u64,
                    size: bytes.len() as u64,
                    link,
                    entsize,
                });
                body.extend(bytes);
            };
            // 1: symtab, 2: strtab
            add(&mut body, name(".symtab"), 2, 2, if self.class64 { 24 } else { 16 }, &symtab);
            add(&mut body, name(".strtab"), 3, 0, 0, &strtab);
            for r in &self.section_relas {
                let bytes: Vec<u8> =
                    r.iter().flat_map(|r| Self::rela_bytes(self.class64, r)).collect();
                add(&mut body, name(".rela"), 4, 1, if self.class64 { 24 } else { 12 }, &bytes);
            }
            let n = name(".shstrtab");
            add(&mut body, n, 3, 0, 0, &names.clone());
        }
        while (base + body.len() as u64) % 8 != 0 {
            body.push(0xAA);
        }
        let shoff = if shs.is_empty() { 0 } else { base + body.len() as u64 };

        let mut out = vec![0x7f, b'E', b'L', b'F', if self.class64 { 2 } else { 1 }, 1, 1];
        out.resize(16, 0);
        out.extend((if self.pie { 3u16 } else { 2 }).to_le_bytes());
        out.extend(243u16.to_le_bytes());
        out.extend(1u32.to_le_bytes());
        self.word(&mut out, self.entry);
        self.word(&mut out, ehsize as u64);
        self.word(&mut out, shoff);
        out.extend(0u32.to_le_bytes());
        out.extend((ehsize as u16).to_le_bytes());
        out.extend((phsize as u16).to_le_bytes());
        out.extend((phs.len() as u16).to_le_bytes());
        out.extend((shsize as u16).to_le_bytes());
        out.extend((shs.len() as u16).to_le_bytes());
        out.extend((shs.len().saturating_sub(1) as u16).to_le_bytes());
        assert_eq!(out.len(), ehsize);
        for p in &phs {
            out.extend(p.kind.to_le_bytes());
            if self.class64 {
                out.extend(p.flags.to_le_bytes());
            }
            self.word(&mut out, p.offset);
            self.word(&mut out, p.vaddr);
            self.word(&mut out, p.vaddr);
            self.word(&mut out, p.filesz);
            self.word(&mut out, p.memsz);
            if !self.class64 {
                out.extend(p.flags.to_le_bytes());
            }
            self.word(&mut out, 4);
        }
        out.extend(body);
        for s in &shs {
            out.extend(s.name.to_le_bytes());
            out.extend(s.kind.to_le_bytes());
            self.word(&mut out, 0);
            self.word(&mut out, 0);
            self.word(&mut out, s.offset);
            self.word(&mut out, s.size);
            out.extend(s.link.to_le_bytes());
            out.extend(0u32.to_le_bytes());
            self.word(&mut out, 1);
            self.word(&mut out, s.entsize);
        }
        out
    }
}
