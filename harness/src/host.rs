//! The host's side of the model: the same closures that serve as system call handlers and debugger
//! of the engines run on the model through this view.
use crate::c10::Want;
use crate::eng::{kind, Hook, SysM};
use crate::spec::*;
use ckb_vm::{error::OutOfBoundKind, Bytes, Error};

pub fn to_err(t: Trap) -> Error {
    match t.0[0] {
        Kind::Oob => Error::MemOutOfBound(0, OutOfBoundKind::Memory),
        Kind::Perm => Error::MemWriteOnExecutablePage(0),
        Kind::Frozen => Error::MemWriteOnFreezedPage(0),
        Kind::Cycles => Error::CyclesExceeded,
        Kind::CyclesOverflow => Error::CyclesOverflow,
        Kind::Ecall => Error::InvalidEcall(0),
        _ => Error::External("model".into()),
    }
}
pub fn to_trap(e: &Error) -> Trap {
    trap(kind(e))
}

impl SysM for Spec {
    fn reg(&self, i: usize) -> u64 {
        self.x[i]
    }
    fn set_reg(&mut self, i: usize, v: u64) {
        self.x[i] = self.m(v);
    }
    fn pc(&self) -> u64 {
        self.pc
    }
    fn jump(&mut self, pc: u64) {
        self.pc = self.m(pc);
    }
    fn cycles(&self) -> u64 {
        self.cycles
    }
    fn set_cycles(&mut self, n: u64) {
        self.cycles = n;
    }
    fn set_max(&mut self, n: u64) {
        self.max_cycles = n;
    }
    fn add_cycles(&mut self, n: u64) -> Result<(), Error> {
        let c = self.cycles.checked_add(n).ok_or(Error::CyclesOverflow)?;
        if c > self.max_cycles {
            return Err(Error::CyclesExceeded);
        }
        self.cycles = c;
        Ok(())
    }
    fn add_cycles_nc(&mut self, n: u64) -> Result<(), Error> {
        self.cycles = self.cycles.checked_add(n).ok_or(Error::CyclesOverflow)?;
        Ok(())
    }
    fn ld(&mut self, n: u64, a: u64) -> Result<u64, Error> {
        self.mem.rd(a, n).map_err(to_err)
    }
    fn st(&mut self, n: u64, a: u64, v: u64) -> Result<(), Error> {
        self.mem.wr(a, n, v).map_err(to_err)
    }
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error> {
        if n > 0 && !self.mem.in_bounds(a, n) {
            return Err(to_err(trap(Kind::Oob)));
        }
        Ok((0..n).map(|k| self.mem.rd8(a + k)).collect::<Vec<u8>>().into())
    }
    fn store_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), Error> {
        self.mem.wr_bytes(a, d).map_err(to_err)
    }
    fn flag(&mut self, p: u64) -> Result<u8, Error> {
        self.mem.flags.get(p as usize).copied().ok_or(to_err(trap(Kind::Oob)))
    }
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
        *self.mem.flags.get_mut(p as usize).ok_or(to_err(trap(Kind::Oob)))? |= f;
        Ok(())
    }
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error> {
        *self.mem.flags.get_mut(p as usize).ok_or(to_err(trap(Kind::Oob)))? &= !f;
        Ok(())
    }
    fn init_pages(&mut self, a: u64, n: u64, f: u8, d: Option<Bytes>, off: u64) -> Result<(), Error> {
        for p in a / PAGE..(a + n) / PAGE {
            if self.mem.flags[p as usize] & FREEZED != 0 {
                return Err(Error::MemWriteOnFreezedPage(p));
            }
            self.mem.flags[p as usize] |= f | DIRTY;
            self.mem.pages[p as usize] = None;
        }
        if let Some(d) = d {
            let n = d.len().min((n - off) as usize);
            self.mem.poke(a + off, &d[..n]);
        }
        Ok(())
    }
    fn set_running(&mut self, b: bool) {
        self.running = b;
    }
    fn reset(&mut self, max: u64) -> Result<(), Error> {
        self.x = [0; 32];
        self.pc = 0;
        self.mem = SMem::new(self.mem.size);
        self.cycles = 0;
        self.max_cycles = max;
        self.exit = 0;
        self.lr = if self.c.xlen == 64 { u64::MAX } else { u32::MAX as u64 };
        Ok(())
    }
    fn load_elf(&mut self, p: &Bytes) -> Result<u64, Error> {
        match crate::c10::load(&mut self.mem, p, self.c.xlen, self.c.version) {
            Want::Ok(entry, n) => {
                self.pc = self.m(entry);
                Ok(n)
            }
            _ => Err(Error::External("load".into())),
        }
    }
    fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Result<u64, Error> {
        let a: Vec<Vec<u8>> = args.iter().map(|x| x.to_vec()).collect();
        match crate::c11::stack(&mut self.mem, &a, start, size, self.c.xlen, self.c.version) {
            Some((sp, n)) => {
                self.x[2] = sp;
                Ok(n)
            }
            None => Err(Error::External("stack".into())),
        }
    }
}

impl Spec {
    /// load_program of the model
    pub fn load_program(&mut self, p: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        let n = SysM::load_elf(self, p)?;
        for h in self.hooks.clone() {
            if let Some(f) = &h.init {
                f(self)?;
            }
        }
        if let Some(Hook { init: Some(f), .. }) = self.dbg.clone() {
            f(self)?;
        }
        let size = self.mem.size / 4;
        Ok(n + SysM::init_stack(self, args, self.mem.size - size, size)?)
    }
    /// An environment call under the installed handlers.
    pub fn hooked_call(&mut self) -> Result<Step, Trap> {
        self.trap_rd = 0;
        self.pc = self.m(self.pc.wrapping_add(4));
        for h in self.hooks.clone() {
            if (h.call)(self).map_err(|e| to_trap(&e))? {
                if self.cycles > self.max_cycles {
                    return Err(trap(Kind::Cycles));
                }
                return Ok(if self.running { Step::Ok } else { Step::Exit });
            }
        }
        Err(trap(Kind::Ecall))
    }
    pub fn hooked_break(&mut self, len: u64) -> Result<Step, Trap> {
        self.trap_rd = 0;
        self.pc = self.m(self.pc.wrapping_add(len));
        let d = self.dbg.clone().unwrap();
        (d.call)(self).map_err(|e| to_trap(&e))?;
        Ok(if self.running { Step::Ok } else { Step::Exit })
    }
}
