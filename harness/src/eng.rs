//! Adapters giving every execution engine of the implementation one object-safe face.
use crate::spec::{self, EcallModel, Kind, Op};
use ckb_vm::ckb_vm_definitions::asm::{calculate_slot, FixedTrace};
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::instructions::{extract_opcode, insts, instruction_opcode_name};
use ckb_vm::machine::asm::traces::{
    decode_fixed_trace, MemoizedDynamicTraceDecoder, MemoizedFixedTraceDecoder, SimpleFixedTraceDecoder, TraceDecoder,
};
use ckb_vm::machine::asm::{AsmCoreMachine, AsmMachine};
use ckb_vm::machine::Pause;
use ckb_vm::snapshot2::{DataSource, Snapshot2, Snapshot2Context};
use ckb_vm::{
    Bytes, CoreMachine, Debugger, DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, Error, FlatMemory, Instruction, Memory, Register, SparseMemory,
    SupportMachine, Syscalls, TraceMachine, WXorXMemory,
};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

pub fn kind(e: &Error) -> Kind {
    match e {
        Error::MemOutOfBound(..) => Kind::Oob,
        Error::MemWriteOnExecutablePage(_) => Kind::Perm,
        Error::MemWriteOnFreezedPage(_) => Kind::Frozen,
        Error::InvalidInstruction { .. } => Kind::Inval,
        Error::InvalidEcall(_) => Kind::Ecall,
        Error::CyclesExceeded => Kind::Cycles,
        Error::CyclesOverflow => Kind::CyclesOverflow,
        Error::InvalidVersion => Kind::Version,
        Error::Pause => Kind::Pause,
        Error::External(_) => Kind::Ext,
        Error::MemPageUnalignedAccess(_) => Kind::Unaligned,
        _ => Kind::Other,
    }
}

/// Strip the version suffix of an implementation opcode name.
pub fn base_name(op: u16) -> &'static str {
    let n = instruction_opcode_name(op);
    n.strip_suffix("_VERSION0").or_else(|| n.strip_suffix("_VERSION1")).unwrap_or(n)
}
/// Implementation opcode -> model operation (None: a fused or internal operation).
pub fn op_table() -> &'static Vec<Option<Op>> {
    static T: OnceLock<Vec<Option<Op>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![None; 65536];
        for o in insts::MINIMAL_OPCODE..=insts::MAXIMUM_OPCODE {
            let n = base_name(o);
            v[o as usize] = spec::ALL_OPS.iter().copied().find(|x| x.name() == n);
        }
        v
    })
}
/// Cost used by the harness on both sides: per operation; fused operations cost 1.
pub fn cost_inst(i: Instruction) -> u64 {
    match op_table()[extract_opcode(i) as usize] {
        Some(op) => spec::cost_of(op),
        None => 1,
    }
}

pub struct Sys {
    pub log: Arc<Mutex<Vec<u64>>>,
    pub model: EcallModel,
}
impl<M: SupportMachine> Syscalls<M> for Sys {
    fn initialize(&mut self, _m: &mut M) -> Result<(), Error> {
        Ok(())
    }
    fn ecall(&mut self, m: &mut M) -> Result<bool, Error> {
        let n = m.registers()[17].to_u64();
        if self.model == EcallModel::Log && n == 64 {
            let a0 = m.registers()[10].to_u64();
            self.log.lock().unwrap().push(a0);
            m.set_register(10, M::REG::from_u64(a0.wrapping_add(1)));
            return Ok(true);
        }
        if self.model == EcallModel::Rich {
            return rich(&mut Sm(m), &self.log);
        }
        Ok(false)
    }
}
/// The handler behind EcallModel::Rich; mirrored by Spec::rich.
pub fn rich(m: &mut dyn SysM, log: &Mutex<Vec<u64>>) -> Result<bool, Error> {
    let n = m.reg(17);
    let a0 = m.reg(10);
    let a1 = m.reg(11);
    match n {
        64 => {
            log.lock().unwrap().push(a0);
            m.set_reg(10, a0.wrapping_add(1));
        }
        65 => m.add_cycles_nc(a0)?,
        66 => m.add_cycles(a0)?,
        67 => return Err(Error::External("handler".into())),
        68 => {
            m.set_reg(5, a0.wrapping_mul(3));
            m.set_reg(17, 64);
        }
        69 => m.st(4, a1, 0x0506_0708)?,
        70 => {
            let v = m.ld(4, a1)?;
            m.set_reg(6, v);
        }
        71 => m.set_running(false),
        72 => m.jump(a1),
        73 => m.set_reg(10, a0.wrapping_add(2)),
        _ => return Ok(false),
    }
    Ok(true)
}
/// What a system call handler or debugger sees of the machine, object safe.
pub trait SysM {
    fn reg(&self, i: usize) -> u64;
    fn set_reg(&mut self, i: usize, v: u64);
    fn pc(&self) -> u64;
    fn jump(&mut self, pc: u64);
    fn cycles(&self) -> u64;
    fn set_cycles(&mut self, n: u64);
    fn set_max(&mut self, n: u64);
    fn add_cycles(&mut self, n: u64) -> Result<(), Error>;
    fn add_cycles_nc(&mut self, n: u64) -> Result<(), Error>;
    fn ld(&mut self, n: u64, a: u64) -> Result<u64, Error>;
    fn st(&mut self, n: u64, a: u64, v: u64) -> Result<(), Error>;
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error>;
    fn store_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), Error>;
    fn flag(&mut self, p: u64) -> Result<u8, Error>;
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn init_pages(&mut self, a: u64, n: u64, f: u8, d: Option<Bytes>, off: u64) -> Result<(), Error>;
    fn set_running(&mut self, b: bool);
    fn reset(&mut self, max: u64) -> Result<(), Error>;
    fn load_elf(&mut self, p: &Bytes) -> Result<u64, Error>;
    fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Result<u64, Error>;
}
struct Sm<'a, M: SupportMachine>(&'a mut M);
impl<'a, M: SupportMachine> SysM for Sm<'a, M> {
    fn reg(&self, i: usize) -> u64 {
        self.0.registers()[i].to_u64()
    }
    fn set_reg(&mut self, i: usize, v: u64) {
        self.0.set_register(i, M::REG::from_u64(v))
    }
    fn pc(&self) -> u64 {
        self.0.pc().to_u64()
    }
    fn jump(&mut self, pc: u64) {
        self.0.update_pc(M::REG::from_u64(pc));
        self.0.commit_pc();
    }
    fn cycles(&self) -> u64 {
        self.0.cycles()
    }
    fn set_cycles(&mut self, n: u64) {
        self.0.set_cycles(n)
    }
    fn set_max(&mut self, n: u64) {
        self.0.set_max_cycles(n)
    }
    fn add_cycles(&mut self, n: u64) -> Result<(), Error> {
        self.0.add_cycles(n)
    }
    fn add_cycles_nc(&mut self, n: u64) -> Result<(), Error> {
        self.0.add_cycles_no_checking(n)
    }
    fn ld(&mut self, n: u64, a: u64) -> Result<u64, Error> {
        let m = self.0.memory_mut();
        let a = M::REG::from_u64(a);
        match n {
            1 => m.load8(&a),
            2 => m.load16(&a),
            4 => m.load32(&a),
            _ => m.load64(&a),
        }
        .map(|v| v.to_u64())
    }
    fn st(&mut self, n: u64, a: u64, v: u64) -> Result<(), Error> {
        let m = self.0.memory_mut();
        let a = M::REG::from_u64(a);
        let v = M::REG::from_u64(v);
        match n {
            1 => m.store8(&a, &v),
            2 => m.store16(&a, &v),
            4 => m.store32(&a, &v),
            _ => m.store64(&a, &v),
        }
    }
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error> {
        self.0.memory_mut().load_bytes(a, n)
    }
    fn store_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), Error> {
        self.0.memory_mut().store_bytes(a, d)
    }
    fn flag(&mut self, p: u64) -> Result<u8, Error> {
        self.0.memory_mut().fetch_flag(p)
    }
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
        self.0.memory_mut().set_flag(p, f)
    }
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
        self.0.memory_mut().clear_flag(p, f)
    }
    fn init_pages(&mut self, a: u64, n: u64, f: u8, d: Option<Bytes>, off: u64) -> Result<(), Error> {
        self.0.memory_mut().init_pages(a, n, f, d, off)
    }
    fn set_running(&mut self, b: bool) {
        self.0.set_running(b)
    }
    fn reset(&mut self, max: u64) -> Result<(), Error> {
        self.0.reset(max)
    }
    fn load_elf(&mut self, p: &Bytes) -> Result<u64, Error> {
        self.0.load_elf(p, true)
    }
    fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Result<u64, Error> {
        self.0.initialize_stack(args, start, size)
    }
}
pub type HookFn = Arc<dyn Fn(&mut dyn SysM) -> Result<bool, Error> + Send + Sync>;
/// A system call handler (or debugger) made of closures.
#[derive(Clone)]
pub struct Hook {
    pub init: Option<HookFn>,
    pub call: HookFn,
}
impl<M: SupportMachine> Syscalls<M> for Hook {
    fn initialize(&mut self, m: &mut M) -> Result<(), Error> {
        match &self.init {
            Some(f) => f(&mut Sm(m)).map(|_| ()),
            None => Ok(()),
        }
    }
    fn ecall(&mut self, m: &mut M) -> Result<bool, Error> {
        (self.call)(&mut Sm(m))
    }
}
impl<M: SupportMachine> Debugger<M> for Hook {
    fn initialize(&mut self, m: &mut M) -> Result<(), Error> {
        match &self.init {
            Some(f) => f(&mut Sm(m)).map(|_| ()),
            None => Ok(()),
        }
    }
    fn ebreak(&mut self, m: &mut M) -> Result<(), Error> {
        (self.call)(&mut Sm(m)).map(|_| ())
    }
}
pub struct StopDbg;
impl<M: SupportMachine> Debugger<M> for StopDbg {
    fn initialize(&mut self, _m: &mut M) -> Result<(), Error> {
        Ok(())
    }
    fn ebreak(&mut self, m: &mut M) -> Result<(), Error> {
        m.set_running(false);
        Ok(())
    }
}

#[derive(Clone)]
pub struct Opt {
    pub isa: u8,
    pub version: u32,
    pub max_cycles: u64,
    pub mem: usize,
    pub stop_ebreak: bool,
    pub ecall: EcallModel,
    pub cost: Option<Arc<dyn Fn(Instruction) -> u64 + Send + Sync>>,
    /// interrupt the machine when the cost function is called for the n-th time (0 = never)
    pub log: Arc<Mutex<Vec<u64>>>,
    /// handlers installed in this order instead of the built-in one
    pub hooks: Vec<Hook>,
    pub dbg: Option<Hook>,
    pub pause: Option<Pause>,
    /// assembly engines: memory nobody wrote starts with bytes derived from this seed
    pub chaos: Option<u32>,
}
impl Opt {
    pub fn new(isa: u8, version: u32, mem: usize) -> Opt {
        Opt { isa, version, max_cycles: u64::MAX, mem, stop_ebreak: false, ecall: EcallModel::Plain, cost: None, log: Arc::new(Mutex::new(vec![])), hooks: vec![], dbg: None, pause: None, chaos: None }
    }
    pub fn stop(mut self) -> Opt {
        self.stop_ebreak = true;
        self
    }
    pub fn logging(mut self) -> Opt {
        self.ecall = EcallModel::Log;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EK {
    I64Flat,
    I64Sparse,
    I32Flat,
    I32Sparse,
    T64Flat,
    T64Sparse,
    T32Flat,
    T32Sparse,
    AsmSimple,
    AsmFixed,
    AsmDyn,
    AsmStep,
    /// a trace decoder of the user's: 4 slots, traces of 3 instructions at most
    AsmTiny,
    /// without the W^X wrapper
    RawFlat,
    RawSparse,
    Raw32Flat,
    Raw32Sparse,
}
use EK::*;
impl EK {
    pub fn xlen(self) -> u32 {
        match self {
            I32Flat | I32Sparse | T32Flat | T32Sparse | Raw32Flat | Raw32Sparse => 32,
            _ => 64,
        }
    }
    pub fn is_asm(self) -> bool {
        matches!(self, AsmSimple | AsmFixed | AsmDyn | AsmStep | AsmTiny)
    }
    pub fn is_trace(self) -> bool {
        matches!(self, T64Flat | T64Sparse | T32Flat | T32Sparse)
    }
}
pub const ALL64: &[EK] = &[I64Flat, I64Sparse, T64Flat, T64Sparse, AsmSimple, AsmFixed, AsmDyn, AsmStep, AsmTiny];
pub const ALL32: &[EK] = &[I32Flat, I32Sparse, T32Flat, T32Sparse];
pub const REP64: &[EK] = &[I64Flat, T64Sparse, AsmSimple, AsmDyn];

// ---------------------------------------------------------------- snapshot2 concrete types
#[derive(Clone, Debug, Default)]
pub struct Ds {
    pub data: Vec<Bytes>,
}
impl DataSource<u32> for Ds {
    fn load_data(&self, id: &u32, offset: u64, length: u64) -> Option<(Bytes, u64)> {
        // same rule as the CKB data loader: length 0 = everything; full length reported
        let d = self.data.get(*id as usize)?;
        let full = d.len() as u64;
        let offset = offset.min(full);
        let rest = full - offset;
        let real = if length > 0 { rest.min(length) } else { rest };
        Some((d.slice(offset as usize..(offset + real) as usize), rest))
    }
}
pub type Ctx2 = Snapshot2Context<u32, Ds>;
pub type Snap2 = Snapshot2<u32>;

/// The snapshot as it comes back from storage, in a format that names the fields or in one that
/// does not (by a bit of the content, so that both meet everything).
fn stored1(s: ckb_vm::snapshot::Snapshot) -> Result<ckb_vm::snapshot::Snapshot, Error> {
    let f = |s: &ckb_vm::snapshot::Snapshot| (s.version, s.registers, s.pc, s.load_reservation_address);
    let t = crate::wire::through(&s, s.pc & 4 == 0).map_err(|e| Error::Unexpected(format!("snapshot not readable after writing: {}", e)))?;
    if f(&s) != f(&t) || s.page_indices != t.page_indices || s.page_flags != t.page_flags || s.pages != t.pages {
        return Err(Error::Unexpected("snapshot changed by writing and reading it".into()));
    }
    Ok(t)
}
fn stored2(s: Snap2) -> Result<Snap2, Error> {
    let f = |s: &Snap2| (s.version, s.registers, s.pc, s.load_reservation_address, s.cycles, s.max_cycles);
    let t = crate::wire::through(&s, s.pc & 4 == 0).map_err(|e| Error::Unexpected(format!("snapshot not readable after writing: {}", e)))?;
    if f(&s) != f(&t) || s.pages_from_source != t.pages_from_source || s.dirty_pages != t.dirty_pages {
        return Err(Error::Unexpected("snapshot changed by writing and reading it".into()));
    }
    Ok(t)
}

pub trait Eng {
    fn ek(&self) -> EK;
    fn x(&self) -> [u64; 32];
    fn set_x(&mut self, i: usize, v: u64);
    fn pc(&self) -> u64;
    fn set_pc(&mut self, v: u64);
    fn cycles(&self) -> u64;
    fn set_cycles(&mut self, v: u64);
    fn max_cycles(&self) -> u64;
    fn set_max(&mut self, v: u64);
    fn lr(&mut self) -> u64;
    fn set_lr(&mut self, v: u64);
    fn run(&mut self) -> Result<i8, Error>;
    /// run with the engine's own default decoder
    fn run_default(&mut self) -> Result<i8, Error>;
    fn reset(&mut self, max: u64) -> Result<(), Error>;
    fn reset_memory(&mut self) -> Result<(), Error>;
    fn mem_size(&mut self) -> u64;
    fn ld(&mut self, n: u64, a: u64) -> Result<u64, Error>;
    fn st(&mut self, n: u64, a: u64, v: u64) -> Result<(), Error>;
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error>;
    fn store_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), Error>;
    fn store_byte(&mut self, a: u64, n: u64, v: u8) -> Result<(), Error>;
    fn init_pages(&mut self, a: u64, n: u64, f: u8, d: Option<Bytes>, off: u64) -> Result<(), Error>;
    fn flag(&mut self, p: u64) -> Result<u8, Error>;
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn ex16(&mut self, a: u64) -> Result<u16, Error>;
    fn ex32(&mut self, a: u64) -> Result<u32, Error>;
    fn load_program(&mut self, p: &Bytes, args: &[Bytes]) -> Result<u64, Error>;
    fn load_elf(&mut self, p: &Bytes) -> Result<u64, Error>;
    /// the four ways of placing a file: directly or from its parsed metadata, moving the pc or not
    fn load_file(&mut self, p: &Bytes, parsed: bool, update_pc: bool) -> Result<u64, Error>;
    fn load_meta(&mut self, p: &Bytes, md: &ckb_vm::elf::ProgramMetadata, args: &[Bytes]) -> Result<u64, Error>;
    fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Result<u64, Error>;
    fn pause(&self) -> Pause;
    fn set_pause(&mut self, p: Pause);
    fn exit_code(&self) -> i8;
    fn running(&self) -> bool;
    /// forget every decoded instruction / trace
    fn fresh_decoder(&mut self);
    fn snap1(&mut self) -> Result<ckb_vm::snapshot::Snapshot, Error>;
    fn resume1(&mut self, s: &ckb_vm::snapshot::Snapshot) -> Result<(), Error>;
    fn snap2(&mut self, c: &Ctx2) -> Result<Snap2, Error>;
    fn resume2(&mut self, c: &mut Ctx2, s: &Snap2) -> Result<(), Error>;
    fn c2_store_bytes(&mut self, c: &mut Ctx2, a: u64, id: u32, off: u64, len: u64, size_addr: u64) -> Result<(u64, u64), Error>;
    fn c2_mark(&mut self, c: &mut Ctx2, md: &ckb_vm::elf::ProgramMetadata, id: u32, off: u64) -> Result<(), Error>;
    fn c2_track(&mut self, c: &mut Ctx2, a: u64, n: u64, id: u32, off: u64) -> Result<(), Error>;
    fn c2_untrack(&mut self, c: &mut Ctx2, a: u64, n: u64) -> Result<(), Error>;
}

fn cost_box(o: &Opt) -> Box<ckb_vm::InstructionCycleFunc> {
    match &o.cost {
        Some(f) => {
            let f = f.clone();
            Box::new(move |i| f(i))
        }
        None => Box::new(cost_inst),
    }
}
fn build<I: SupportMachine + 'static>(core: I, o: &Opt) -> DefaultMachine<I> {
    let mut b = DefaultMachineBuilder::new(core).instruction_cycle_func(cost_box(o));
    if o.hooks.is_empty() {
        b = b.syscall(Box::new(Sys { log: o.log.clone(), model: o.ecall }));
    }
    for h in &o.hooks {
        b = b.syscall(Box::new(h.clone()));
    }
    if let Some(p) = &o.pause {
        b = b.pause(p.clone());
    }
    if o.stop_ebreak {
        b = b.debugger(Box::new(StopDbg));
    } else if let Some(d) = &o.dbg {
        b = b.debugger(Box::new(d.clone()));
    }
    b.build()
}

pub struct IM<R: Register, M: Memory<REG = R>> {
    ek: EK,
    m: DefaultMachine<DefaultCoreMachine<R, M>>,
    d: Decoder,
    isa: u8,
    version: u32,
}
pub struct TM<R: Register, M: Memory<REG = R>> {
    ek: EK,
    m: Option<TraceMachine<DefaultCoreMachine<R, WXorXMemory<M>>>>,
    d: Decoder,
    isa: u8,
    version: u32,
}
pub struct AM<D: TraceDecoder> {
    ek: EK,
    pub m: AsmMachine,
    pub d: D,
    mk: Box<dyn Fn() -> D>,
}
pub struct AS {
    m: AsmMachine,
    d: Decoder,
    isa: u8,
    version: u32,
}

macro_rules! common {
    // $core: the core machine; $outer: what the user of this kind of machine holds
    ($R:ty, |$s:ident| $core:expr, |$t:ident| $coreref:expr, $outer:expr, $outref:expr, |$v:ident| $setmax:expr, $reset:expr) => {
        fn x(&self) -> [u64; 32] {
            let $t = self;
            let mut o = [0; 32];
            for (k, v) in $outref.registers().iter().enumerate() {
                o[k] = v.to_u64();
            }
            o
        }
        fn set_x(&mut self, i: usize, v: u64) {
            let $s = self;
            $outer.set_register(i, <$R>::from_u64(v));
        }
        fn pc(&self) -> u64 {
            let $t = self;
            $outref.pc().to_u64()
        }
        fn set_pc(&mut self, v: u64) {
            let $s = self;
            $outer.update_pc(<$R>::from_u64(v));
            $outer.commit_pc();
        }
        fn cycles(&self) -> u64 {
            let $t = self;
            $coreref.cycles()
        }
        fn set_cycles(&mut self, v: u64) {
            let $s = self;
            $core.set_cycles(v);
        }
        fn max_cycles(&self) -> u64 {
            let $t = self;
            $coreref.max_cycles()
        }
        fn set_max(&mut self, $v: u64) {
            let $s = self;
            $setmax;
        }
        fn lr(&mut self) -> u64 {
            let $s = self;
            $core.memory_mut().lr().to_u64()
        }
        fn set_lr(&mut self, v: u64) {
            let $s = self;
            $core.memory_mut().set_lr(&<$R>::from_u64(v));
        }
        fn reset(&mut self, $v: u64) -> Result<(), Error> {
            let $s = self;
            $reset
        }
        fn reset_memory(&mut self) -> Result<(), Error> {
            let $s = self;
            $core.memory_mut().reset_memory()
        }
        fn mem_size(&mut self) -> u64 {
            let $s = self;
            $core.memory_mut().memory_size() as u64
        }
        fn ld(&mut self, n: u64, a: u64) -> Result<u64, Error> {
            let $s = self;
            let m = $core.memory_mut();
            let a = <$R>::from_u64(a);
            match n {
                1 => m.load8(&a),
                2 => m.load16(&a),
                4 => m.load32(&a),
                _ => m.load64(&a),
            }
            .map(|v| v.to_u64())
        }
        fn st(&mut self, n: u64, a: u64, v: u64) -> Result<(), Error> {
            let $s = self;
            let m = $core.memory_mut();
            let a = <$R>::from_u64(a);
            let v = <$R>::from_u64(v);
            match n {
                1 => m.store8(&a, &v),
                2 => m.store16(&a, &v),
                4 => m.store32(&a, &v),
                _ => m.store64(&a, &v),
            }
        }
        fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error> {
            let $s = self;
            $core.memory_mut().load_bytes(a, n)
        }
        fn store_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), Error> {
            let $s = self;
            $core.memory_mut().store_bytes(a, d)
        }
        fn store_byte(&mut self, a: u64, n: u64, v: u8) -> Result<(), Error> {
            let $s = self;
            $core.memory_mut().store_byte(a, n, v)
        }
        fn init_pages(&mut self, a: u64, n: u64, f: u8, d: Option<Bytes>, off: u64) -> Result<(), Error> {
            let $s = self;
            $core.memory_mut().init_pages(a, n, f, d, off)
        }
        fn flag(&mut self, p: u64) -> Result<u8, Error> {
            let $s = self;
            $core.memory_mut().fetch_flag(p)
        }
        fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
            let $s = self;
            $core.memory_mut().set_flag(p, f)
        }
        fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
            let $s = self;
            $core.memory_mut().clear_flag(p, f)
        }
        fn ex16(&mut self, a: u64) -> Result<u16, Error> {
            let $s = self;
            $core.memory_mut().execute_load16(a)
        }
        fn ex32(&mut self, a: u64) -> Result<u32, Error> {
            let $s = self;
            $core.memory_mut().execute_load32(a)
        }
        fn load_elf(&mut self, p: &Bytes) -> Result<u64, Error> {
            let $s = self;
            $core.load_elf(p, true)
        }
        fn load_file(&mut self, p: &Bytes, parsed: bool, update_pc: bool) -> Result<u64, Error> {
            let $s = self;
            if parsed {
                let version = $core.version();
                let md = ckb_vm::elf::parse_elf::<$R>(p, version)?;
                $core.load_binary(p, &md, update_pc)
            } else {
                $core.load_elf(p, update_pc)
            }
        }
        fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Result<u64, Error> {
            let $s = self;
            $core.initialize_stack(args, start, size)
        }
        fn snap1(&mut self) -> Result<ckb_vm::snapshot::Snapshot, Error> {
            let $s = self;
            stored1(ckb_vm::snapshot::make_snapshot($core)?)
        }
        fn resume1(&mut self, s: &ckb_vm::snapshot::Snapshot) -> Result<(), Error> {
            let $s = self;
            ckb_vm::snapshot::resume($core, s)
        }
        fn snap2(&mut self, c: &Ctx2) -> Result<Snap2, Error> {
            let $s = self;
            stored2(c.make_snapshot($core)?)
        }
        fn resume2(&mut self, c: &mut Ctx2, s: &Snap2) -> Result<(), Error> {
            let $s = self;
            c.resume($core, s)
        }
        fn c2_store_bytes(&mut self, c: &mut Ctx2, a: u64, id: u32, off: u64, len: u64, size_addr: u64) -> Result<(u64, u64), Error> {
            let $s = self;
            c.store_bytes($core, a, &id, off, len, size_addr)
        }
        fn c2_mark(&mut self, c: &mut Ctx2, md: &ckb_vm::elf::ProgramMetadata, id: u32, off: u64) -> Result<(), Error> {
            let $s = self;
            c.mark_program($core, md, &id, off)
        }
        fn c2_track(&mut self, c: &mut Ctx2, a: u64, n: u64, id: u32, off: u64) -> Result<(), Error> {
            let $s = self;
            c.track_pages($core, a, n, &id, off)
        }
        fn c2_untrack(&mut self, c: &mut Ctx2, a: u64, n: u64) -> Result<(), Error> {
            let $s = self;
            c.untrack_pages($core, a, n)
        }
    };
}

impl<R: Register, M: Memory<REG = R>> Eng for IM<R, M> {
    common!(R, |s| s.m.inner_mut(), |t| t.m, s.m, t.m, |v| s.m.set_max_cycles(v), s.m.reset(v));
    fn ek(&self) -> EK {
        self.ek
    }
    fn run(&mut self) -> Result<i8, Error> {
        self.m.run_with_decoder(&mut self.d)
    }
    fn run_default(&mut self) -> Result<i8, Error> {
        self.m.run()
    }
    fn load_program(&mut self, p: &Bytes, a: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(p, a)
    }
    fn load_meta(&mut self, p: &Bytes, md: &ckb_vm::elf::ProgramMetadata, a: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program_with_metadata(p, md, a)
    }
    fn pause(&self) -> Pause {
        self.m.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.set_pause(p)
    }
    fn exit_code(&self) -> i8 {
        self.m.exit_code()
    }
    fn running(&self) -> bool {
        self.m.running()
    }
    fn fresh_decoder(&mut self) {
        self.d = build_decoder::<R>(self.isa, self.version);
    }
}
impl<R: Register, M: Memory<REG = R>> Eng for TM<R, M> {
    common!(R, |s| s.m.as_mut().unwrap().machine.inner_mut(), |t| t.m.as_ref().unwrap().machine, s.m.as_mut().unwrap(), t.m.as_ref().unwrap(), |v| s.m.as_mut().unwrap().set_max_cycles(v), s.m.as_mut().unwrap().machine.reset(v));
    fn ek(&self) -> EK {
        self.ek
    }
    fn run(&mut self) -> Result<i8, Error> {
        self.m.as_mut().unwrap().run_with_decoder(&mut self.d)
    }
    fn run_default(&mut self) -> Result<i8, Error> {
        self.m.as_mut().unwrap().run()
    }
    fn load_program(&mut self, p: &Bytes, a: &[Bytes]) -> Result<u64, Error> {
        self.m.as_mut().unwrap().load_program(p, a)
    }
    fn load_meta(&mut self, p: &Bytes, md: &ckb_vm::elf::ProgramMetadata, a: &[Bytes]) -> Result<u64, Error> {
        self.m.as_mut().unwrap().load_program_with_metadata(p, md, a)
    }
    fn pause(&self) -> Pause {
        self.m.as_ref().unwrap().machine.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.as_mut().unwrap().machine.set_pause(p)
    }
    fn exit_code(&self) -> i8 {
        self.m.as_ref().unwrap().machine.exit_code()
    }
    fn running(&self) -> bool {
        self.m.as_ref().unwrap().machine.running()
    }
    fn fresh_decoder(&mut self) {
        self.d = build_decoder::<R>(self.isa, self.version);
        let t = self.m.take().unwrap();
        self.m = Some(TraceMachine::new(t.machine));
    }
}
impl<D: TraceDecoder> Eng for AM<D> {
    common!(u64, |s| s.m.machine.inner_mut(), |t| t.m.machine, s.m.machine, t.m.machine, |v| s.m.set_max_cycles(v), s.m.machine.reset(v));
    fn ek(&self) -> EK {
        self.ek
    }
    fn run(&mut self) -> Result<i8, Error> {
        self.m.run_with_decoder(&mut self.d)
    }
    fn run_default(&mut self) -> Result<i8, Error> {
        self.m.run()
    }
    fn load_program(&mut self, p: &Bytes, a: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(p, a)
    }
    fn load_meta(&mut self, p: &Bytes, md: &ckb_vm::elf::ProgramMetadata, a: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program_with_metadata(p, md, a)
    }
    fn pause(&self) -> Pause {
        self.m.machine.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.machine.set_pause(p)
    }
    fn exit_code(&self) -> i8 {
        self.m.machine.exit_code()
    }
    fn running(&self) -> bool {
        self.m.machine.running()
    }
    fn fresh_decoder(&mut self) {
        self.d = (self.mk)();
    }
}
impl Eng for AS {
    common!(u64, |s| s.m.machine.inner_mut(), |t| t.m.machine, s.m.machine.inner_mut(), t.m.machine, |v| SupportMachine::set_max_cycles(s.m.machine.inner_mut(), v), s.m.machine.inner_mut().reset(v));
    fn ek(&self) -> EK {
        AsmStep
    }
    fn run_default(&mut self) -> Result<i8, Error> {
        self.run()
    }
    fn run(&mut self) -> Result<i8, Error> {
        self.m.machine.set_running(true);
        while self.m.machine.running() {
            if self.m.machine.reset_signal() {
                self.d.reset_instructions_cache()?;
            }
            self.m.step(&mut self.d)?;
        }
        Ok(self.m.machine.exit_code())
    }
    fn load_program(&mut self, p: &Bytes, a: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(p, a)
    }
    fn load_meta(&mut self, p: &Bytes, md: &ckb_vm::elf::ProgramMetadata, a: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program_with_metadata(p, md, a)
    }
    fn pause(&self) -> Pause {
        self.m.machine.pause()
    }
    fn set_pause(&mut self, p: Pause) {
        self.m.machine.set_pause(p)
    }
    fn exit_code(&self) -> i8 {
        self.m.machine.exit_code()
    }
    fn running(&self) -> bool {
        self.m.machine.running()
    }
    fn fresh_decoder(&mut self) {
        self.d = build_decoder::<u64>(self.isa, self.version);
    }
}

fn im<R: Register + 'static, M: Memory<REG = R> + 'static>(ek: EK, o: &Opt, mem: M) -> Box<dyn Eng> {
    raw::<R, _>(ek, o, WXorXMemory::new(mem))
}
fn raw<R: Register + 'static, M: Memory<REG = R> + 'static>(ek: EK, o: &Opt, mem: M) -> Box<dyn Eng> {
    let core = DefaultCoreMachine::<R, M>::new_with_memory(o.isa, o.version, o.max_cycles, mem);
    Box::new(IM { ek, m: build(core, o), d: build_decoder::<R>(o.isa, o.version), isa: o.isa, version: o.version })
}
fn tm<R: Register + 'static, M: Memory<REG = R> + 'static>(ek: EK, o: &Opt, mem: M) -> Box<dyn Eng> {
    let core = DefaultCoreMachine::<R, WXorXMemory<M>>::new_with_memory(o.isa, o.version, o.max_cycles, WXorXMemory::new(mem));
    Box::new(TM { ek, m: Some(TraceMachine::new(build(core, o))), d: build_decoder::<R>(o.isa, o.version), isa: o.isa, version: o.version })
}
pub fn asm_machine(o: &Opt) -> AsmMachine {
    let mut core = AsmCoreMachine::new_with_memory(o.isa, o.version, o.max_cycles, o.mem);
    if let Some(s) = o.chaos {
        core.chaos_mode = 1;
        core.chaos_seed = s;
    }
    AsmMachine::new(build(core, o))
}
pub fn am<D: TraceDecoder + 'static>(ek: EK, o: &Opt, mk: Box<dyn Fn() -> D>) -> Box<dyn Eng> {
    Box::new(am_raw(ek, o, mk))
}
pub fn am_raw<D: TraceDecoder + 'static>(ek: EK, o: &Opt, mk: Box<dyn Fn() -> D>) -> AM<D> {
    AM { ek, m: asm_machine(o), d: mk(), mk }
}

/// What a user of the trace decoder interface may provide.
pub struct Tiny {
    traces: Box<[FixedTrace; 4]>,
    d: Decoder,
}
impl InstDecoder for Tiny {
    fn decode<M: Memory>(&mut self, memory: &mut M, pc: u64) -> Result<Instruction, Error> {
        self.d.decode(memory, pc)
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        self.d.reset_instructions_cache()
    }
}
impl TraceDecoder for Tiny {
    fn fixed_traces(&self) -> *const FixedTrace {
        self.traces.as_ptr()
    }
    fn fixed_trace_size(&self) -> u64 {
        4
    }
    fn prepare_traces(&mut self, m: &mut DefaultMachine<Box<AsmCoreMachine>>) -> Result<(), Error> {
        let (t, _) = decode_fixed_trace(&mut self.d, m, Some(3))?;
        self.traces[calculate_slot(*m.pc()) % 4] = t;
        Ok(())
    }
    fn reset(&mut self) -> Result<(), Error> {
        self.traces = Default::default();
        self.d.reset_instructions_cache()
    }
}

pub fn make(ek: EK, o: &Opt) -> Box<dyn Eng> {
    let (isa, v) = (o.isa, o.version);
    match ek {
        I64Flat => im::<u64, _>(ek, o, FlatMemory::new_with_memory(o.mem)),
        I64Sparse => im::<u64, _>(ek, o, SparseMemory::new_with_memory(o.mem)),
        I32Flat => im::<u32, _>(ek, o, FlatMemory::new_with_memory(o.mem)),
        I32Sparse => im::<u32, _>(ek, o, SparseMemory::new_with_memory(o.mem)),
        T64Flat => tm::<u64, _>(ek, o, FlatMemory::new_with_memory(o.mem)),
        T64Sparse => tm::<u64, _>(ek, o, SparseMemory::new_with_memory(o.mem)),
        T32Flat => tm::<u32, _>(ek, o, FlatMemory::new_with_memory(o.mem)),
        T32Sparse => tm::<u32, _>(ek, o, SparseMemory::new_with_memory(o.mem)),
        AsmSimple => am(ek, o, Box::new(move || SimpleFixedTraceDecoder::new(build_decoder::<u64>(isa, v)))),
        AsmFixed => am(ek, o, Box::new(move || MemoizedFixedTraceDecoder::new(build_decoder::<u64>(isa, v)))),
        AsmDyn => am(ek, o, Box::new(move || MemoizedDynamicTraceDecoder::new(build_decoder::<u64>(isa, v)))),
        AsmTiny => am(ek, o, Box::new(move || Tiny { traces: Default::default(), d: build_decoder::<u64>(isa, v) })),
        RawFlat => raw::<u64, _>(ek, o, FlatMemory::new_with_memory(o.mem)),
        RawSparse => raw::<u64, _>(ek, o, SparseMemory::new_with_memory(o.mem)),
        Raw32Flat => raw::<u32, _>(ek, o, FlatMemory::new_with_memory(o.mem)),
        Raw32Sparse => raw::<u32, _>(ek, o, SparseMemory::new_with_memory(o.mem)),
        AsmStep => Box::new(AS { m: asm_machine(o), d: build_decoder::<u64>(isa, v), isa, version: v }),
    }
}

/// Run a closure counting into a shared counter (used to inject events at the n-th call).
pub struct Counter(pub Arc<AtomicU64>);
impl Counter {
    pub fn new() -> Counter {
        Counter(Arc::new(AtomicU64::new(0)))
    }
    pub fn get(&self) -> u64 {
        self.0.load(Ordering::SeqCst)
    }
}
