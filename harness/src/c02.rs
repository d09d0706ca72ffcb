//! C02: decoding of every instruction word.
use crate::asmb::{form, Form};
use crate::eng::{kind, op_table};
use crate::fw::*;
use crate::spec::*;
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::instructions::{extract_opcode, instruction_length, Itype, Rtype, Stype, Utype};
use ckb_vm::machine::asm::AsmCoreMachine;
use ckb_vm::memory::{flat::FlatMemory, sparse::SparseMemory, wxorx::WXorXMemory};
use ckb_vm::{Bytes, CoreMachine, Error, Memory};

/// Instruction memory holding one word at every multiple of 8 and an ebreak after it.
pub struct WordMem {
    pub w: u32,
    pub next: u32,
}
macro_rules! fetch_only {
    ($t:ty) => {
impl Memory for $t {
    type REG = u64;
    fn init_pages(&mut self, _a: u64, _s: u64, _f: u8, _d: Option<Bytes>, _o: u64) -> Result<(), Error> {
        Ok(())
    }
    fn memory_size(&self) -> usize {
        self.size()
    }
    fn fetch_flag(&mut self, _p: u64) -> Result<u8, Error> {
        Ok(2)
    }
    fn set_flag(&mut self, _p: u64, _f: u8) -> Result<(), Error> {
        Ok(())
    }
    fn clear_flag(&mut self, _p: u64, _f: u8) -> Result<(), Error> {
        Ok(())
    }
    fn reset_memory(&mut self) -> Result<(), Error> {
        Ok(())
    }
    fn load_bytes(&mut self, _a: u64, _s: u64) -> Result<Bytes, Error> {
        Ok(Bytes::new())
    }
    fn store_bytes(&mut self, _a: u64, _v: &[u8]) -> Result<(), Error> {
        Ok(())
    }
    fn store_byte(&mut self, _a: u64, _s: u64, _v: u8) -> Result<(), Error> {
        Ok(())
    }
    fn execute_load16(&mut self, a: u64) -> Result<u16, Error> {
        self.at(a).map(|v| v as u16)
    }
    fn execute_load32(&mut self, a: u64) -> Result<u32, Error> {
        self.at(a)
    }
    fn load8(&mut self, _a: &u64) -> Result<u64, Error> {
        Ok(0)
    }
    fn load16(&mut self, _a: &u64) -> Result<u64, Error> {
        Ok(0)
    }
    fn load32(&mut self, _a: &u64) -> Result<u64, Error> {
        Ok(0)
    }
    fn load64(&mut self, _a: &u64) -> Result<u64, Error> {
        Ok(0)
    }
    fn store8(&mut self, _a: &u64, _v: &u64) -> Result<(), Error> {
        Ok(())
    }
    fn store16(&mut self, _a: &u64, _v: &u64) -> Result<(), Error> {
        Ok(())
    }
    fn store32(&mut self, _a: &u64, _v: &u64) -> Result<(), Error> {
        Ok(())
    }
    fn store64(&mut self, _a: &u64, _v: &u64) -> Result<(), Error> {
        Ok(())
    }
    fn lr(&self) -> &u64 {
        &0
    }
    fn set_lr(&mut self, _v: &u64) {}
}
    };
}
fetch_only!(WordMem);
fetch_only!(HashMem);
impl WordMem {
    #[inline(always)]
    fn at(&self, a: u64) -> Result<u32, Error> {
        Ok(match a & 7 {
            0 => self.w,
            2 => (self.w >> 16) | self.next << 16,
            _ => self.next,
        })
    }
    fn size(&self) -> usize {
        usize::MAX / 2
    }
}

/// Instruction memory of any size whose parcels are a function of their address and of `epoch`.
pub struct HashMem {
    size: u64,
    epoch: u64,
}
impl HashMem {
    fn parcel(&self, a: u64) -> Result<u32, Error> {
        if a >= self.size || self.size - a < 2 {
            return Err(Error::MemOutOfBound(a, ckb_vm::error::OutOfBoundKind::Memory));
        }
        let h = (a ^ self.epoch << 57).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let h = (h ^ h >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let k = h >> 40;
        if a >> 12 & 7 == 5 {
            return Err(Error::MemWriteOnExecutablePage(a >> 12));
        }
        // compressed additions, halves of long additions, anything else
        Ok(match h >> 36 & 7 {
            0..=3 => 0x0001 | (k as u32 & 0x0ffc | 0x84) & 0x0ffc,
            4 | 5 => 0x0013 | (k as u32 & 0x1f) << 7 | (k as u32 & 0x8000),
            _ => k as u32 & 0xffff,
        })
    }
    fn at(&self, a: u64) -> Result<u32, Error> {
        Ok(self.parcel(a)? | self.parcel(a.wrapping_add(2)).unwrap_or(0) << 16)
    }
    fn size(&self) -> usize {
        self.size as usize
    }
    fn want(&self, pc: u64, c: Cfg) -> Result<SI, Kind> {
        let lo = self.parcel(pc).map_err(|e| kind(&e))?;
        let hi = if lo & 3 == 3 { self.parcel(pc.wrapping_add(2)).map_err(|e| kind(&e)) } else { Ok(0) };
        // a word within a page is fetched at once
        decode(lo | hi? << 16, c).ok_or(Kind::Inval)
    }
}
/// Decode at addresses one after another with the same decoder.
fn history(d: &mut Decoder, m: &mut HashMem, c: Cfg, at: &[u64], st: &mut Stats) -> CaseRes {
    for (k, pc) in at.iter().enumerate() {
        st.transitions += 1;
        let got = d.decode(m, *pc);
        let want = m.want(*pc, c);
        match (&got, &want) {
            (Ok(i), Ok(s)) => match to_si(*i) {
                Some(g) if g == *s || canon(g) == canon(*s) => continue,
                _ => {}
            },
            (Err(e), Err(k)) if kind(e) == *k => continue,
            _ => {}
        }
        return Err(format!("{:?} memory of {:#x} bytes: decoding at {:#x?} one after the other, the last gives {:?} instead of {:?}", c, m.size, &at[..=k], got, want));
    }
    Ok(())
}

struct Tab {
    class: Vec<Option<(Op, Form)>>,
}
fn tab() -> &'static Tab {
    static T: std::sync::OnceLock<Tab> = std::sync::OnceLock::new();
    T.get_or_init(|| Tab { class: op_table().iter().map(|o| o.map(|o| (o, form(o).0))).collect() })
}
/// The implementation's instruction in the model's terms.
pub fn to_si(i: u64) -> Option<SI> {
    let (op, f) = tab().class[extract_opcode(i) as usize]?;
    let len = instruction_length(i);
    let mut s = SI { op, rd: 0, rs1: 0, rs2: 0, imm: 0, len };
    match f {
        Form::R | Form::Amo => {
            s.rd = Rtype(i).rd() as u8;
            s.rs1 = Rtype(i).rs1() as u8;
            s.rs2 = Rtype(i).rs2() as u8;
        }
        Form::R1 | Form::Lr => {
            s.rd = Rtype(i).rd() as u8;
            s.rs1 = Rtype(i).rs1() as u8;
        }
        Form::I | Form::Sh5 | Form::Sh6 | Form::Ld | Form::Jr => {
            s.rd = Itype(i).rd() as u8;
            s.rs1 = Itype(i).rs1() as u8;
            s.imm = Itype(i).immediate_s() as i64;
        }
        Form::St | Form::Br => {
            s.rs1 = Stype(i).rs1() as u8;
            s.rs2 = Stype(i).rs2() as u8;
            s.imm = Stype(i).immediate_s() as i64;
        }
        Form::U | Form::J => {
            s.rd = Utype(i).rd() as u8;
            s.imm = Utype(i).immediate_s() as i64;
        }
        Form::N => {}
    }
    Some(s)
}

struct W {
    d: Decoder,
    m: WordMem,
    pc: u64,
}
fn mk(c: Cfg) -> W {
    let d = if c.xlen == 64 { build_decoder::<u64>(c.isa, c.version) } else { build_decoder::<u32>(c.isa, c.version) };
    W { d, m: WordMem { w: 0, next: 0x0010_0073 }, pc: 0 }
}
#[inline(always)]
fn one(w: &mut W, word: u32, c: Cfg) -> CaseRes {
    if c.xlen == 32 && c.isa & ISA_B != 0 {
        // encodings RV32 does not define are not judged
        let op = word & 0x7f;
        if matches!(op, 0x1b | 0x3b) || (op == 0x13 && matches!(word >> 12 & 7, 1 | 5)) {
            return Ok(());
        }
    }
    w.m.w = word;
    w.pc = (w.pc + 8) & 0xffff_ffff;
    let got = w.d.decode(&mut w.m, w.pc);
    let want = decode(word, c);
    match (&got, &want) {
        (Ok(i), Some(s)) => {
            let g = match to_si(*i) {
                Some(g) => g,
                None => return Err(format!("{:?} word {:#010x} decodes to internal operation {:#x}, expected {:?}", c, word, i, s)),
            };
            if g != *s && canon(g) != canon(*s) {
                return Err(format!("{:?} word {:#010x} decodes to {:?}, expected {:?}", c, word, g, s));
            }
            Ok(())
        }
        (Err(e), None) if kind(e) == Kind::Inval => {
            if let Error::InvalidInstruction { pc, instruction } = e {
                let bits = if word & 3 == 3 { word } else { word & 0xffff };
                if *pc != w.pc || *instruction != bits {
                    return Err(format!("word {:#010x} at {:#x}: reported as {:?}", word, w.pc, e));
                }
            }
            Ok(())
        }
        _ => Err(format!("{:?} word {:#010x} decodes to {:?}, expected {:?}", c, word, got, want)),
    }
}

const SPOT: u64 = 3; // the page under test, unless it has to be the last one of a frame
/// What lies where an instruction is fetched from.
fn spot<M: Memory>(m: &mut M, d: &mut Decoder, c: Cfg, at: u64, here: bool, next: Option<bool>, word: u32) -> CaseRes {
    let size = m.memory_size() as u64;
    let sp = if next.is_none() { size / PAGE - 1 } else { SPOT };
    let pc = sp * PAGE + at;
    let pages: Vec<u64> = (sp..(sp + 2).min(size / PAGE)).collect();
    for p in &pages {
        m.clear_flag(*p, EXEC).map_err(|e| format!("harness: {:?}", e))?;
    }
    let n = (size - pc).min(4);
    m.store_bytes(pc, &word.to_le_bytes()[..n as usize]).map_err(|e| format!("harness: {:?}", e))?;
    for p in &pages {
        if (*p == sp && here) || (*p != sp && next == Some(true)) {
            m.set_flag(*p, EXEC).map_err(|e| format!("harness: {:?}", e))?;
        }
    }
    d.reset_instructions_cache().unwrap();
    let wide = word & 3 == 3;
    let got = d.decode(m, pc);
    let fail = |m: String| Err(format!("{:?} word {:#010x} at offset {} of its page, page {}executable, next page {}: {}", c, word, at, if here { "" } else { "not " }, match next { None => "outside memory", Some(true) => "executable", _ => "not executable" }, m));
    let want = if !here {
        Err(Kind::Perm)
    } else if wide && at == PAGE - 2 && next != Some(true) {
        Err(if next.is_none() { Kind::Oob } else { Kind::Perm })
    } else {
        decode(word, c).ok_or(Kind::Inval)
    };
    match (&got, &want) {
        (Ok(i), Ok(s)) => match to_si(*i) {
            Some(g) if g == *s || canon(g) == canon(*s) => Ok(()),
            g => fail(format!("decodes to {:?}, expected {:?}", g, s)),
        },
        (Err(e), Err(k)) if kind(e) == *k => Ok(()),
        _ => fail(format!("decodes to {:?}, expected {:?}", got, want)),
    }
}
fn spots(full: bool, c: Cfg, mem: u64, at: u64, next: Option<bool>, here: bool, st: &mut Stats) -> CaseRes {
    let size = if next.is_none() { (SPOT + 1) * PAGE } else { (SPOT + 2) * PAGE } as usize;
    let mut d = if c.xlen == 64 { build_decoder::<u64>(c.isa, c.version) } else { build_decoder::<u32>(c.isa, c.version) };
    let mut f = WXorXMemory::new(FlatMemory::<u64>::new_with_memory(size));
    let mut s = WXorXMemory::new(SparseMemory::<u64>::new_with_memory(size));
    // the assembly machine's memory is a whole number of 256 KB frames
    let mut a = if mem == 2 { Some(AsmCoreMachine::new_with_memory(c.isa, c.version, u64::MAX, 1 << 18)) } else { None };
    let n = if full { 1u64 << 16 } else { 1 << 11 };
    for i in 0..n {
        let lo = if full { i as u32 } else { (i as u32 & 0x7f) | (i as u32 >> 7 & 7) << 13 | (i as u32 >> 10 & 1) * 0x0a80 };
        for up in [0u32, 0x0051, 0x4123, 0xffff] {
            let w = lo | up << 16;
            if c.xlen == 32 && c.isa & ISA_B != 0 {
                let op = w & 0x7f;
                if matches!(op, 0x1b | 0x3b) || (op == 0x13 && matches!(w >> 12 & 7, 1 | 5)) {
                    continue;
                }
            }
            match mem {
                0 => spot(&mut f, &mut d, c, at, here, next, w)?,
                1 => spot(&mut s, &mut d, c, at, here, next, w)?,
                _ => spot(a.as_mut().unwrap().memory_mut(), &mut d, c, at, here, next, w)?,
            }
        }
    }
    st.states += 4 * n;
    st.transitions += 4 * n;
    st.traces += 4 * n;
    st.sample(|| format!("{:?}: {} words at offset {} of a page, next page {:?}", c, 4 * n, at, next));
    Ok(())
}

pub fn run(r: &mut Run) {
    let all = !r.quick();
    r.bound("instruction words at offsets 0, 2, 4088..4094 of a page that is executable or not, followed by an executable page, a page that is not executable or the end of memory, fetched from each memory backend");
    for (xlen, isa, version) in [(64, 0, 2), (64, 5, 1), (64, 0, 0), (64, 7, 2), (32, 4, 2), (32, 0, 0)] {
        let c = Cfg { xlen, isa, version };
        const AT: [u64; 6] = [0, 2, 4088, 4090, 4092, 4094];
        r.phase(&format!("positions {:?}", (xlen, isa, version)), 3 * 6 * 3 * 2, 1, || (), |_, i, st| {
            let (mem, at, nx, here) = (i % 3, AT[(i / 3 % 6) as usize], i / 18 % 3, i / 54 == 0);
            spots(all, c, mem, at, [Some(true), Some(false), None][nx as usize], here, st)
        });
    }
    let at: Vec<u64> = {
        let mut v = vec![];
        // around the start of a page, its end and the end of its 8 KiB
        for a in [0x40_2000u64, 0x40_2ffe, 0x40_3ffc] {
            v.extend([a, a + 2, a + 4]);
            v.extend((8..64).map(|k| a ^ 1 << k));
            v.extend([a ^ 3 << 32, a ^ 3 << 16, a ^ 0x3_0000_0000_0000, a ^ 0x1_0001_0000]);
        }
        v
    };
    r.bound(format!("every ordered pair out of {} addresses that agree in all but few bits, decoded in the orders 1 2 1 2 and after the code has changed and the cache was dropped, in memories of 8 MiB and of 2^64 bytes", at.len()));
    for (xlen, isa, version) in [(64, 5, 2), (64, 0, 0), (64, 7, 2), (64, 7, 1), (32, 4, 2)] {
        let c = Cfg { xlen, isa, version };
        let n = at.len() as u64;
        let at = &at;
        r.phase(&format!("histories {:?}", (xlen, isa, version)), n, 2, || mk(c).d, |d, i, st| {
            let a = at[i as usize];
            let mut m = HashMem { size: 0, epoch: 0 };
            for size in [8 << 20, u64::MAX] {
                m.size = size;
                for b in at {
                    d.reset_instructions_cache().unwrap();
                    m.epoch += 1;
                    history(d, &mut m, c, &[a, *b, a, *b], st)?;
                }
            }
            st.states += 2 * n;
            st.traces += 2 * n;
            st.sample(|| format!("{:?}: decoding at {:#x} and at {} other addresses, each in both orders", c, a, n));
            Ok(())
        });
    }
    let full: &[(u32, u8, u32)] = if r.quick() {
        &[(64, ISA_B | ISA_A, 2)]
    } else {
        &[(64, ISA_B | ISA_A, 2), (64, ISA_B | ISA_A, 1), (64, ISA_B | ISA_A, 0), (64, 0, 2), (64, ISA_B, 1), (64, 0, 0), (32, ISA_A, 2), (32, 0, 1), (32, ISA_A, 0), (64, 7, 2)]
    };
    r.bound(format!("all 2^32 instruction words for configurations (xlen, isa, version) {:?}", full));
    r.bound("all 2^16 compressed words x 5 upper halves and all 32-bit words with rs1 in {0,2,5,8,31} for every xlen x {none,B,A,B+A,B+A+MOP} x version 0-2");
    r.assume("ALU operations that cannot change state (rd = x0 or adding zero in place) are equal to a no-op");
    for &(xlen, isa, version) in full {
        let c = Cfg { xlen, isa, version };
        r.phase(&format!("all words {:?}", (xlen, isa, version)), 1 << 16, 16, || mk(c), |w, i, st| {
            for lo in 0..1u64 << 16 {
                // low half varies slowest so compressed words are grouped
                one(w, (i as u32) | (lo as u32) << 16, c)?;
            }
            st.states += 1 << 16;
            st.transitions += 1 << 16;
            st.traces += 1 << 16;
            st.sample(|| format!("{:?}: words with low half {:#06x}, all 65536 upper halves", c, i));
            Ok(())
        });
    }
    for xlen in [64, 32] {
        for isa in [0, ISA_B, ISA_A, ISA_A | ISA_B, 7] {
            for version in 0..3 {
                if isa & ISA_MOP != 0 && version == 0 {
                    continue;
                }
                let c = Cfg { xlen, isa, version };
                if full.contains(&(xlen, isa, version)) {
                    continue;
                }
                r.phase(&format!("reduced {:?}", (xlen, isa, version)), 1 << 15, 64, || mk(c), |w, i, st| {
                    // bits: opcode7+rd5+f3 = 15 low bits fixed by i; rs1 from a set; upper 12 bits all
                    let mut n = 0;
                    for rs1 in [0u32, 2, 5, 8, 31] {
                        let low = i as u32 | (rs1 & 1) << 15;
                        if i & 3 != 3 {
                            if rs1 == 2 || rs1 == 5 {
                                for up in [0u32, 0xffff, 0x1234, 0x8001, 0x7ffe] {
                                    one(w, low | up << 16, c)?;
                                    n += 1;
                                }
                            }
                            continue;
                        }
                        for up in 0..1u32 << 12 {
                            one(w, i as u32 | rs1 << 15 | up << 20, c)?;
                        }
                        n += 1 << 12;
                    }
                    st.states += n;
                    st.transitions += n;
                    st.traces += n;
                    Ok(())
                });
            }
        }
    }
}
