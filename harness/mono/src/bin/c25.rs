//! C25: the register file against a simulated machine.
#![allow(dead_code, unused_imports, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Rng, Verdict, Violation};

pub mod bytecodegen {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum BinOpK {
        Add = 0,
        Sub = 1,
        Mul = 2,
        Div = 3,
        BitOr = 4,
        BitAnd = 5,
        BitXor = 6,
        Rem = 7,
        Exp = 8,
        Shl = 9,
        Shr = 10,
    }
}
#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Eq, Ord, Hash, Default)]
#[repr(transparent)]
pub struct SlotId(pub u16);
impl SlotId {
    pub fn new(i: u16) -> Self {
        SlotId(i)
    }
}
pub mod jitgen {
    pub use super::SlotId;
}

pub mod codegen {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub enum GP {
        Rax = 0,
        Rcx = 1,
        Rdx = 2,
        Rsp = 4,
        Rsi = 6,
        Rdi = 7,
        R8 = 8,
        R9 = 9,
        R10 = 10,
        R11 = 11,
        R12 = 12,
        R13 = 13,
        R14 = 14,
        R15 = 15,
    }
    pub mod jitgen {
        pub use crate::SlotId;
        #[path = "/repo/monoruby/src/codegen/jitgen/gp_alloc.rs"]
        mod gp_alloc;
        use super::GP;
        use crate::bytecodegen::BinOpK;
        use gp_alloc::*;
        use std::collections::{BTreeMap, BTreeSet};
        use vh::{vbail, vcheck, veq, Case, Rng, Verdict, Violation};

        const KINDS: [BinOpK; 7] = [BinOpK::Add, BinOpK::Sub, BinOpK::Mul, BinOpK::Div, BinOpK::BitOr, BinOpK::BitAnd, BinOpK::BitXor];

        fn mix(k: u64, a: u64, b: u64) -> u64 {
            let mut x = k.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ a.rotate_left(17) ^ b.wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x ^= x >> 29;
            x.wrapping_mul(0x94D0_49BB_1331_11EB) | 1
        }

        /// Registers and stack homes of the machine the actions run on.
        #[derive(Clone)]
        struct Machine {
            regs: BTreeMap<u8, u64>,
            home: BTreeMap<u16, u64>,
            /// what each live slot holds according to the program
            truth: BTreeMap<u16, u64>,
            fresh: u64,
        }
        impl Machine {
            fn new() -> Self {
                Machine { regs: BTreeMap::new(), home: BTreeMap::new(), truth: BTreeMap::new(), fresh: 1000 }
            }
            fn value(&mut self) -> u64 {
                self.fresh += 2;
                mix(99, self.fresh, 0)
            }
            fn reg(&self, r: GP) -> u64 {
                self.regs.get(&(r as u8)).copied().unwrap_or(0xdead)
            }
            fn set(&mut self, r: GP, v: u64) {
                self.regs.insert(r as u8, v);
            }
            fn store(&mut self, r: GP, s: SlotId) {
                self.home.insert(s.0, self.reg(r));
            }
            fn load(&mut self, s: SlotId, r: GP) {
                let v = self.home.get(&s.0).copied().unwrap_or(0xdead);
                self.set(r, v);
            }
        }

        /// The register file together with the machine it describes.
        #[derive(Clone)]
        struct Driver {
            rf: GpRegFile,
            m: Machine,
            sp: u16,
            locals: u16,
        }

        impl Driver {
            fn slots(&self) -> Vec<u16> {
                self.m.truth.keys().copied().collect()
            }
            /// Every live slot can be recovered, in each of the ways the compiler does it.
            fn check(&self, case: &mut Case, at: &str) -> Verdict {
                let mut used: BTreeMap<u8, u16> = BTreeMap::new();
                for (&s, &v) in &self.m.truth {
                    let slot = SlotId(s);
                    let r = self.rf.reg_of(slot);
                    let got = match r {
                        Some(r) => self.m.reg(r),
                        None => self.m.home.get(&s).copied().unwrap_or(0xdead),
                    };
                    if got != v {
                        vbail!("after {at}: slot {s} should hold {v:x} but {} holds {got:x}", match r { Some(r) => format!("its register {r:?}"), None => "its stack home".into() });
                    }
                    if let Some(r) = r {
                        if let Some(o) = used.insert(r as u8, s) {
                            vbail!("after {at}: slots {o} and {s} are both in {r:?}");
                        }
                        vcheck!(!self.rf.is_free(r), "after {at}: {r:?} caches slot {s} but is reported free");
                    }
                    if let Some(d) = self.rf.dirty_reg_of(slot) {
                        veq!(Some(d), r, "after {at}: slot {s} is dirty in one register and found in another");
                        case.count("dirty_seen");
                    } else if self.m.home.get(&s) != Some(&v) {
                        vbail!("after {at}: the stack home of slot {s} is out of date but its register is not known to be dirty");
                    }
                }
                self.deopt(&self.m, &self.rf, &self.m.truth, at)?;
                let mut f = self.clone();
                for (r, s) in f.rf.take_dirty_spills() {
                    f.m.store(r, s);
                }
                vcheck!(f.rf.is_empty(), "after {at}: the register file is not empty after a flush");
                for (&s, &v) in &self.m.truth {
                    vcheck!(f.rf.reg_of(SlotId(s)).is_none(), "after {at}: slot {s} is still cached after a flush");
                    veq!(f.m.home.get(&s).copied(), Some(v), "after {at} and a flush: stack home of slot {s}");
                }
                case.count("states_checked");
                Ok(())
            }
            /// A side exit: dirty residents are written back, then the interpreter reads the homes.
            fn deopt(&self, m: &Machine, rf: &GpRegFile, truth: &BTreeMap<u16, u64>, at: &str) -> Verdict {
                let mut m = m.clone();
                let before = rf.clone();
                let d = rf.dirty_residents();
                let set: BTreeSet<u16> = d.iter().map(|(_, s)| s.0).collect();
                veq!(set.len(), d.len(), "after {at}: a slot is written back from two registers");
                for (r, s) in d {
                    m.store(r, s);
                }
                for (&s, &v) in truth {
                    veq!(m.home.get(&s).copied(), Some(v), "side exit at {at}: stack home of slot {s}");
                    veq!(rf.reg_of(SlotId(s)), before.reg_of(SlotId(s)), "a snapshot changed the register file");
                }
                Ok(())
            }
            fn alloc(&mut self, case: &mut Case, pinned: &[GP]) -> Result<GP, Violation> {
                let held: Vec<(u16, GP)> = self.m.truth.keys().filter_map(|&s| self.rf.reg_of(SlotId(s)).map(|r| (s, r))).collect();
                let (r, spill) = self.rf.alloc_reg(pinned);
                vcheck!(GP_ALLOC_SET.contains(&r), "{r:?} handed out, which is not allocatable");
                vcheck!(!pinned.contains(&r), "{r:?} handed out although it is in use by the instruction");
                vcheck!(self.rf.is_free(r), "{r:?} handed out while it still caches a slot");
                if let Some((sr, s)) = spill {
                    self.m.store(sr, s);
                    case.count("evictions");
                }
                // residents elsewhere stay where they are
                for (s, o) in held {
                    if o != r {
                        veq!(self.rf.reg_of(SlotId(s)), Some(o), "slot {s} moved although {r:?} was handed out");
                    } else {
                        case.count("residents_replaced");
                    }
                }
                Ok(r)
            }
            fn ensure(&mut self, case: &mut Case, slot: SlotId, pinned: &[GP]) -> Result<GP, Violation> {
                if let Some(r) = self.rf.reg_of(slot) {
                    case.count("reuses");
                    return Ok(r);
                }
                let r = self.alloc(case, pinned)?;
                self.m.load(slot, r);
                self.rf.bind(r, slot, false);
                case.count("loads");
                Ok(r)
            }
            fn dst_reg(&mut self, case: &mut Case, lhs: SlotId, lhs_gp: GP, lhs_dirty: bool, extra: &[GP]) -> Result<GP, Violation> {
                if !lhs_dirty && !extra.contains(&lhs_gp) {
                    if self.rf.is_free(lhs_gp) {
                        return Ok(lhs_gp);
                    }
                    if self.rf.reg_of(lhs) == Some(lhs_gp) {
                        self.rf.invalidate(lhs);
                        return Ok(lhs_gp);
                    }
                }
                let mut pinned = vec![lhs_gp];
                pinned.extend_from_slice(extra);
                self.alloc(case, &pinned)
            }
            fn drop_dead(&mut self, sp: u16) {
                self.rf.free_above_sp(SlotId(sp));
                self.m.truth.retain(|&s, _| s < sp);
                self.sp = sp;
            }
            /// Slots that died keep arbitrary contents.
            fn scribble(&mut self) {
                let dead: Vec<u16> = self.m.home.keys().copied().filter(|s| *s >= self.sp).collect();
                for s in dead {
                    let v = self.m.value();
                    self.m.home.insert(s, v);
                }
            }
            fn binop(&mut self, case: &mut Case, kind: BinOpK, dst: Option<u16>, lhs: u16, rhs: u16, sp: u16) -> Verdict {
                let clobber = matches!(kind, BinOpK::Mul | BinOpK::Div);
                let (l, r) = (SlotId(lhs), SlotId(rhs));
                let want = mix(kind as u64, self.m.truth[&lhs], self.m.truth[&rhs]);
                let lg = self.ensure(case, l, &[])?;
                let rg = self.ensure(case, r, &[lg])?;
                if clobber && let Some(reg) = self.rf.dirty_reg_of(r) {
                    self.m.store(reg, r);
                    veq!(self.rf.sync(r), Some(reg), "register reported when slot {rhs} was brought home");
                }
                let lhs_dirty = self.rf.dirty_reg_of(l).is_some();
                // what the interpreter will read if the operation leaves by its side exit
                let exit = self.rf.dirty_residents();
                let mut exit_truth = self.m.truth.clone();
                // (the interpreter redoes the operation, so its old result is not read)
                exit_truth.retain(|&s, _| (s < sp && Some(s) != dst) || s == lhs || s == rhs);
                if let Some(d) = dst {
                    self.rf.invalidate(SlotId(d));
                }
                self.drop_dead(sp);
                let dg = if clobber {
                    self.alloc(case, &[lg, rg])?
                } else if kind == BinOpK::Add && lg == rg {
                    self.dst_reg(case, l, lg, lhs_dirty, &[])?
                } else {
                    self.dst_reg(case, l, lg, lhs_dirty, &[rg])?
                };
                // the value is computed from what the registers hold now
                let got = mix(kind as u64, self.m.reg(lg), self.m.reg(rg));
                veq!(got, want, "operands of a binary operation on slots {lhs} and {rhs}");
                let g = self.m.value();
                if clobber {
                    self.m.set(rg, g);
                }
                self.m.set(dg, mix(7, g, 1));
                // overflow leaves by the snapshot, after the result register was written
                // (a resident evicted for the result is at home by then)
                let mut m = self.m.clone();
                for (r, s) in exit {
                    if r != dg {
                        m.store(r, s);
                    }
                }
                for (s, v) in exit_truth {
                    veq!(m.home.get(&s).copied(), Some(v), "side exit of {kind:?} on slots {lhs} and {rhs}: stack home of slot {s}");
                }
                case.count("side_exits");
                self.m.set(dg, got);
                if clobber {
                    self.rf.invalidate(r);
                }
                if let Some(d) = dst {
                    self.rf.invalidate(SlotId(d));
                    self.rf.bind(dg, SlotId(d), true);
                    self.m.truth.insert(d, want);
                }
                if lhs == rhs {
                    case.count("doubled");
                }
                if dst == Some(lhs) || dst == Some(rhs) {
                    case.count("in_place");
                }
                case.count("operations");
                Ok(())
            }
        }

        pub fn online(case: &mut Case) -> Verdict {
            let locals = 1 + case.rng.below(8) as u16;
            let mut d = Driver { rf: GpRegFile::new(), m: Machine::new(), sp: locals, locals };
            for s in 0..locals {
                let v = d.m.value();
                d.m.home.insert(s, v);
                d.m.truth.insert(s, v);
            }
            let mut side: Option<Driver> = None;
            let n = 5 + case.rng.us(120);
            for _ in 0..n {
                let slots = d.slots();
                let k = case.rng.weighted(&[8, 3, 3, 2, 2, 2, 1, 2, 1, 2]);
                case.sig(k as u64);
                let s = *case.rng.pick(&slots);
                let t = *case.rng.pick(&slots);
                case.sig(((s as u64) << 16) | t as u64);
                match k {
                    0 => {
                        let kind = *case.rng.pick(&KINDS);
                        // a stack machine: result goes to a local, an operand, or the new top
                        let base = d.locals.max(if case.rng.chance(1, 2) { d.sp.saturating_sub(2) } else { d.sp });
                        let dst = match case.rng.us(6) {
                            0 => None,
                            1 => Some(*case.rng.pick(&slots)).filter(|x| *x < base),
                            2 => Some(case.rng.below(d.locals as u64) as u16),
                            _ => Some(base),
                        };
                        let sp = match dst {
                            Some(x) if x >= base => x + 1,
                            _ => base,
                        };
                        case.op(|| format!("binop {kind:?} {dst:?} = {s} {t} sp={sp}"));
                        d.binop(case, kind, dst, s, t, sp)?;
                    }
                    1 => {
                        // a call result or literal parked in a register
                        let dst = if case.rng.chance(1, 3) { s } else { d.sp };
                        let v = d.m.value();
                        case.op(|| format!("park {dst}"));
                        d.rf.invalidate(SlotId(dst));
                        d.m.truth.remove(&dst);
                        let r = d.alloc(case, &[])?;
                        d.m.set(r, v);
                        d.rf.bind(r, SlotId(dst), true);
                        d.m.truth.insert(dst, v);
                        d.sp = d.sp.max(dst + 1);
                        case.count("parked");
                    }
                    2 => {
                        // a non-register consumer reads the operand from its home
                        case.op(|| format!("sync {s}"));
                        let was = d.rf.reg_of(SlotId(s));
                        let r = d.rf.sync(SlotId(s));
                        veq!(r, was, "register reported when slot {s} was brought home");
                        if let Some(r) = r {
                            d.m.store(r, SlotId(s));
                            veq!(d.rf.reg_of(SlotId(s)), Some(r), "slot {s} left its register when brought home");
                            case.count("synced");
                        }
                        veq!(d.m.home.get(&s).copied(), d.m.truth.get(&s).copied(), "stack home of slot {s} after it was brought home");
                    }
                    3 => {
                        case.op(|| format!("write back {s}"));
                        if let Some(r) = d.rf.dirty_reg_of(SlotId(s)) {
                            d.m.store(r, SlotId(s));
                        }
                        d.rf.invalidate(SlotId(s));
                        vcheck!(d.rf.reg_of(SlotId(s)).is_none(), "slot {s} is still cached after it was dropped");
                        case.count("written_back");
                    }
                    4 => {
                        // a definition outside the register file
                        case.op(|| format!("define {s} at home"));
                        d.rf.invalidate(SlotId(s));
                        let v = d.m.value();
                        d.m.home.insert(s, v);
                        d.m.truth.insert(s, v);
                        case.count("defined_home");
                    }
                    5 => {
                        // push a temporary at home
                        let x = d.sp;
                        if x < 40 {
                            case.op(|| format!("push {x}"));
                            d.rf.invalidate(SlotId(x));
                            let v = d.m.value();
                            d.m.home.insert(x, v);
                            d.m.truth.insert(x, v);
                            d.sp = x + 1;
                        }
                    }
                    6 => {
                        case.op(|| "flush".into());
                        for (r, s) in d.rf.take_dirty_spills() {
                            d.m.store(r, s);
                        }
                        // the registers do not survive what follows
                        for &r in GP_ALLOC_SET {
                            let v = d.m.value();
                            d.m.set(r, v);
                        }
                        case.count("flushes");
                    }
                    7 => {
                        let sp = d.locals + case.rng.below((d.sp - d.locals) as u64 + 1) as u16;
                        case.op(|| format!("pop to {sp}"));
                        d.drop_dead(sp);
                        d.scribble();
                        case.count("pops");
                    }
                    8 => {
                        // the other side of a branch continues from a copy
                        case.op(|| "switch to a copy".into());
                        let c = d.clone();
                        if let Some(o) = side.replace(c) {
                            d = o;
                            case.count("copies");
                        }
                    }
                    _ => {
                        // a compare: operands only, all read while pinned
                        case.op(|| format!("compare {s} {t}"));
                        let a = d.ensure(case, SlotId(s), &[])?;
                        let b = d.ensure(case, SlotId(t), &[a])?;
                        veq!((d.m.reg(a), d.m.reg(b)), (d.m.truth[&s], d.m.truth[&t]), "compared operands");
                        case.count("compares");
                    }
                }
                d.check(case, "an operation")?;
            }
            case.nontrivial();
            Ok(())
        }

        pub fn run(case: &mut Case) -> Verdict {
            let locals = 1 + case.rng.below(9) as u16;
            let mut m = Machine::new();
            for s in 0..60u16 {
                let v = m.value();
                m.home.insert(s, v);
            }
            let mut live: BTreeSet<u16> = (0..locals).collect();
            let mut sp = locals;
            // some temporaries are on the stack already
            for _ in 0..case.rng.us(4) {
                live.insert(sp);
                sp += 1;
            }
            for s in &live {
                m.truth.insert(*s, m.home[s]);
            }
            let most = if case.rng.chance(1, 4) { 60 } else { 12 };
            let n = 1 + case.rng.us(most);
            let mut insts = vec![];
            let mut shadow = m.truth.clone();
            let mut steps = vec![];
            for _ in 0..n {
                let v: Vec<u16> = live.iter().copied().collect();
                let lhs = *case.rng.pick(&v);
                let rhs = if case.rng.chance(1, 6) { lhs } else { *case.rng.pick(&v) };
                let base = locals.max(if case.rng.chance(2, 3) { sp.saturating_sub(case.rng.below(3) as u16) } else { sp });
                let dst = match case.rng.us(5) {
                    0 => *case.rng.pick(&v),
                    1 => case.rng.below(locals as u64) as u16,
                    _ => base.min(50),
                };
                let dst = if dst > base { base } else { dst };
                let next = if dst >= base { dst + 1 } else { base };
                let kind = *case.rng.pick(&KINDS);
                let want = mix(kind as u64, shadow[&lhs], shadow[&rhs]);
                insts.push(BinOpInst { kind, dst: SlotId(dst), lhs: SlotId(lhs), rhs: SlotId(rhs), next_sp: SlotId(next) });
                steps.push((kind, shadow[&lhs], shadow[&rhs], want));
                case.sig(((dst as u64) << 40) | ((lhs as u64) << 24) | ((rhs as u64) << 8) | next as u64);
                shadow.retain(|s, _| *s < next);
                shadow.insert(dst, want);
                live.retain(|s| *s < next);
                live.insert(dst);
                sp = next;
            }
            case.op(|| format!("{insts:?}"));
            let out = allocate_run(&insts);
            let mut at = 0;
            for a in &out {
                match *a {
                    GpAction::Load { slot, reg, .. } => {
                        vcheck!(GP_ALLOC_SET.contains(&reg), "{reg:?} is not allocatable");
                        m.load(slot, reg);
                        case.count("run_loads");
                    }
                    GpAction::Spill { reg, slot } => {
                        m.store(reg, slot);
                        case.count(if at < steps.len() { "run_evictions" } else { "run_flushed" });
                    }
                    GpAction::BinOp { kind, dst, lhs, rhs } => {
                        vcheck!(at < steps.len(), "more operations than instructions");
                        let (k, l, r, v) = steps[at];
                        veq!(kind, k, "kind of operation {at}");
                        veq!((m.reg(lhs), m.reg(rhs)), (l, r), "operands of operation {at} in {out:?}");
                        m.set(dst, v);
                        at += 1;
                        case.count("run_operations");
                    }
                }
            }
            veq!(at, steps.len(), "operations emitted");
            for (s, v) in &shadow {
                veq!(m.home[s], *v, "stack home of slot {s} at the end of {out:?}");
            }
            case.count("runs");
            case.nontrivial();
            Ok(())
        }
    }
}

fn main() {
    vh::main_loop("c25", |case| {
        if case.rng.chance(1, 3) { codegen::jitgen::run(case) } else { codegen::jitgen::online(case) }
    });
}
