//! C11: the initial stack.
use crate::c10::{File, Ph};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::Bytes;

const MEM: u64 = 512 << 10;
const KS: &[EK] = &[EK::I64Flat, EK::I64Sparse, EK::AsmSimple, EK::AsmStep, EK::I32Flat, EK::I32Sparse, EK::T64Sparse, EK::T32Flat];

/// Expected stack: final stack pointer and size in use, or None when it cannot be built.
pub fn stack(m: &mut SMem, args: &[Vec<u8>], start: u64, size: u64, xlen: u32, version: u32) -> Option<(u64, u64)> {
    let slot = xlen as u64 / 8;
    let top = start + size;
    if version >= 1 && args.is_empty() {
        let sp = (top.checked_sub(slot)?) & !15;
        return if sp < start { None } else { Some((sp, top - sp)) };
    }
    let mut sp = top;
    let mut slots = vec![args.len() as u64];
    for a in args {
        sp = sp.checked_sub(a.len() as u64 + 1)?;
        let mut s = a.clone();
        s.push(0);
        m.wr_bytes(sp, &s).ok()?;
        slots.push(sp);
    }
    if version >= 1 {
        slots.push(0);
    }
    sp = sp.checked_sub(slot * slots.len() as u64)?;
    if version >= 1 {
        sp &= !15;
    }
    // version 0 fills only the low half of a 64-bit slot
    let w = if version == 0 { 4 } else { slot };
    for (k, v) in slots.iter().enumerate().rev() {
        let a = sp + slot * k as u64;
        if version == 0 && a + w > m.size {
            return None;
        }
        m.wr(a, w, *v).ok()?;
    }
    if sp < start {
        return None;
    }
    Some((sp, top - sp))
}

/// What the calling convention promises, read back from the machine.
fn abi(e: &mut dyn Eng, args: &[Vec<u8>], start: u64, top: u64, version: u32) -> CaseRes {
    let ek = e.ek();
    let slot = ek.xlen() as u64 / 8;
    let sp = e.x()[2];
    let rd = |e: &mut dyn Eng, a: u64| e.ld(if version == 0 { 4 } else { slot }, a).map_err(|x| format!("{:?}: reading {:#x}: {:?}", ek, a, x));
    if version >= 1 && sp % 16 != 0 {
        return Err(format!("{:?}: stack pointer {:#x} is not aligned", ek, sp));
    }
    if sp < start || sp > top {
        return Err(format!("{:?}: stack pointer {:#x} outside {:#x}..{:#x}", ek, sp, start, top));
    }
    if version >= 1 && args.is_empty() {
        // nothing is written; the slot for the count is inside the area
        return if sp + slot <= top { Ok(()) } else { Err(format!("{:?}: no room for the count at {:#x}", ek, sp)) };
    }
    let argc = rd(e, sp)?;
    if argc != args.len() as u64 {
        return Err(format!("{:?}: argc = {}", ek, argc));
    }
    let n = args.len() as u64 + 1 + (version >= 1) as u64;
    let mut used = vec![(sp, sp + slot * n)];
    for (k, a) in args.iter().enumerate() {
        let p = rd(e, sp + slot * (k as u64 + 1))?;
        let end = p + a.len() as u64 + 1;
        if p < start || end > top {
            return Err(format!("{:?}: argument {} at {:#x}..{:#x} outside the stack", ek, k, p, end));
        }
        if let Some(o) = used.iter().find(|o| p < o.1 && o.0 < end) {
            return Err(format!("{:?}: argument {} at {:#x}..{:#x} overlaps {:x?}", ek, k, p, end, o));
        }
        used.push((p, end));
        let b = e.load_bytes(p, a.len() as u64 + 1).map_err(|x| format!("{:?}: {:?}", ek, x))?;
        if b[..a.len()] != a[..] || b[a.len()] != 0 {
            return Err(format!("{:?}: argument {} reads back as {}", ek, k, hex(&b[..b.len().min(40)])));
        }
    }
    if version >= 1 && rd(e, sp + slot * (n - 1))? != 0 {
        return Err(format!("{:?}: argv[argc] is not null", ek));
    }
    Ok(())
}

struct W {
    engs: Vec<Box<dyn Eng>>,
    version: u32,
    prog: Bytes,
    prog32: Bytes,
}
fn mk(version: u32) -> W {
    let ph = vec![Ph { typ: 1, flags: 5, off: 0x200, vaddr: 0x1_0000, filesz: 0x812, memsz: 0x900 }, Ph { typ: 1, flags: 6, off: 0xb00, vaddr: 0x1_2000, filesz: 0x805, memsz: 0x1900 }];
    W {
        engs: KS.iter().map(|k| make(*k, &Opt::new(0, version, MEM as usize))).collect(),
        version,
        prog: File::new(2, ph.clone()).bytes().into(),
        prog32: File::new(1, ph).bytes().into(),
    }
}
fn arg(len: usize, k: usize) -> Vec<u8> {
    (0..len).map(|i| (i as u32 * 37 + k as u32 * 101 + (i as u32 >> 8) * 11) as u8 ^ 0x5a).collect()
}
enum How {
    /// load_program
    Program,
    /// load_program_with_metadata
    Meta,
    /// initialize_stack over a filled memory
    Area { start: u64, size: u64, twice: bool },
    /// as Area, the listed page executable
    Exec { start: u64, size: u64, page: u64 },
}
fn check(w: &mut W, args: &[Vec<u8>], how: &How, st: &mut Stats) -> CaseRes {
    let v = w.version;
    let show = |h: &How| match h {
        How::Program => "load_program".to_string(),
        How::Meta => "load_program_with_metadata".into(),
        How::Area { start, size, twice } => format!("stack {:#x}+{:#x}{}", start, size, if *twice { ", used before" } else { "" }),
        How::Exec { start, size, page } => format!("stack {:#x}+{:#x}, page {} executable", start, size, page),
    };
    let lens: Vec<usize> = args.iter().map(|a| a.len()).collect();
    let bargs: Vec<Bytes> = args.iter().map(|a| Bytes::copy_from_slice(a)).collect();
    let mut models: Vec<Option<(SMem, Option<(u64, u64)>, u64, u64, u64)>> = vec![None, None];
    for e in w.engs.iter_mut() {
        let e = e.as_mut();
        let ek = e.ek();
        let bad = |m: String| Err(format!("version {}, arguments of length {:?}, {}: {:?}: {}", v, lens, show(how), ek, m));
        let prog = if ek.xlen() == 32 { &w.prog32 } else { &w.prog };
        let xi = (ek.xlen() == 32) as usize;
        if models[xi].is_none() {
            let mut m = SMem::new(MEM);
            let (mut start, mut size, mut add) = (MEM - MEM / 4, MEM / 4, 0);
            match how {
                How::Program | How::Meta => {
                    if let crate::c10::Want::Ok(_, t) = crate::c10::load(&mut m, prog, ek.xlen(), v) {
                        add = t;
                    }
                }
                How::Area { start: a, size: n, .. } | How::Exec { start: a, size: n, .. } => {
                    start = *a;
                    size = *n;
                    m.wr_bytes(0, &vec![0xee; MEM as usize]).unwrap();
                    if let How::Exec { page, .. } = how {
                        m.flags[*page as usize] |= EXEC;
                    }
                    if let How::Area { twice: true, .. } = how {
                        stack(&mut m, &[arg(17, 9), arg(3, 8)], start, size, ek.xlen(), v);
                    }
                }
            }
            let r = stack(&mut m, args, start, size, ek.xlen(), v);
            models[xi] = Some((m, r, add, start, size));
        }
        let (m, want, add, start, size) = models[xi].as_ref().unwrap();
        e.reset(1 << 30).unwrap();
        for k in 1..32 {
            e.set_x(k, 0x7070 + k as u64);
        }
        e.set_pc(0x4444);
        let r = match how {
            How::Program => e.load_program(prog, &bargs),
            How::Meta => {
                let md = ckb_vm::elf::parse_elf::<u64>(prog, v).map_err(|x| format!("{:?}", x));
                let md = match md {
                    Ok(m) => m,
                    Err(_) => ckb_vm::elf::parse_elf::<u32>(prog, v).map_err(|x| format!("{:?}", x))?,
                };
                e.load_meta(prog, &md, &bargs)
            }
            How::Area { twice, .. } => {
                e.store_bytes(0, &vec![0xee; MEM as usize]).unwrap();
                if *twice {
                    let _ = e.init_stack(&[Bytes::from(arg(17, 9)), Bytes::from(arg(3, 8))], *start, *size);
                }
                e.init_stack(&bargs, *start, *size)
            }
            How::Exec { page, .. } => {
                e.store_bytes(0, &vec![0xee; MEM as usize]).unwrap();
                e.set_flag(*page, EXEC).unwrap();
                e.init_stack(&bargs, *start, *size)
            }
        };
        st.traces += 1;
        match (want, &r) {
            (None, Err(_)) => {
                st.bump("refused", 1);
                continue;
            }
            (Some((sp, used)), Ok(t)) => {
                if *t != used + add {
                    return bad(format!("reported {} bytes instead of {}+{}", t, add, used));
                }
                if e.x()[2] != *sp {
                    return bad(format!("stack pointer {:#x} instead of {:#x}", e.x()[2], sp));
                }
            }
            _ => return bad(format!("gave {:?} instead of {:?}", r, want)),
        }
        st.bump("laid out", 1);
        if let Err(x) = cmp_mem(e, m, &all_pages(m), if matches!(how, How::Exec { .. }) { EXEC } else { 0 }) {
            return bad(x);
        }
        if let Err(x) = abi(e, args, *start, start + size, v) {
            return bad(x);
        }
        if (1..32).any(|k| k != 2 && e.x()[k] != 0x7070 + k as u64) || e.cycles() != 0 {
            return bad("registers or cycles changed".into());
        }
        if matches!(how, How::Program | How::Meta) && e.pc() != 0x1_0000 || !matches!(how, How::Program | How::Meta) && e.pc() != 0x4444 {
            return bad(format!("program counter {:#x}", e.pc()));
        }
    }
    st.states += args.len() as u64 + 2;
    st.transitions += args.len() as u64 + 1;
    st.sample(|| format!("{} args {:?}, version {}", show(how), lens, v));
    Ok(())
}

/// Argument lists of up to `depth` arguments over `lens`, by index.
fn lists(lens: &[usize], depth: u32) -> u64 {
    (0..=depth).map(|k| (lens.len() as u64).pow(k)).sum()
}
fn list(lens: &[usize], mut i: u64) -> Vec<Vec<u8>> {
    let n = lens.len() as u64;
    let mut k = 0u32;
    while i >= n.pow(k) {
        i -= n.pow(k);
        k += 1;
    }
    (0..k as usize)
        .map(|j| {
            let l = lens[(i % n) as usize];
            i /= n;
            arg(l, j)
        })
        .collect()
}

pub fn run(r: &mut Run) {
    crate::scale::large_load(r, true);
    let q = r.quick();
    let some: Vec<usize> = vec![0, 1, 3, 6, 7, 8, 14, 15, 16, 17, 4095, 4096, 4097];
    let many: Vec<usize> = (0..=40).collect();
    let tiny: Vec<usize> = if q { vec![0, 5, 15] } else { vec![0, 1, 7, 15, 16] };
    r.bound("argument lists: up to 3 arguments of 13 lengths, pairs of every length up to 40, 0 to 700 equal arguments; loaded with load_program, with metadata, and as initialize_stack over every stack size from 0 to 130 bytes at 10 starting addresses (with and without earlier contents, with an executable page), and around the exact fit of lists up to 130 KB; 3 versions, both widths, 8 engines, 512 KB of memory, all memory compared");
    for v in 0..3 {
        r.phase(&format!("argument lists, version {}", v), lists(&some, 3), 40, || mk(v), |w, i, st| check(w, &list(&some, i), &How::Program, st));
        r.phase(&format!("every length, version {}", v), lists(&many, 2), 40, || mk(v), |w, i, st| check(w, &list(&many, i), if i % 2 == 0 { &How::Meta } else { &How::Program }, st));
        let starts = [0u64, 16, 0x10, 0x1000 - 64, 0xffc, 0x1008, 0x2001, 0x4_0000 - 32, 0x4_0000, 0x5_000f];
        let nl = lists(&tiny, 3);
        r.phase(&format!("every small stack, version {}", v), 131 * starts.len() as u64 * nl, 40, || mk(v), |w, i, st| {
            let d = digits(i, &[131, nl, starts.len() as u64]);
            if q && d[2] % 2 == 1 && d[1] % 2 == 1 {
                return Ok(());
            }
            check(w, &list(&tiny, d[1] as u64), &How::Area { start: starts[d[2]], size: d[0] as u64, twice: d[0] >= 90 && (d[0] + d[1]) % 3 == 0 }, st)
        });
        // the stack reaching the end of memory and exact fits of large lists
        let shapes: Vec<(usize, usize)> = vec![(0, 0), (1, 0), (1, 130_000), (2, 4095), (3, 40_000), (30, 100), (100, 1), (700, 15), (256, 0), (257, 511), (5, 26_000), (1, 131_054), (1, 131_040)];
        r.phase(&format!("around the exact fit, version {}", v), shapes.len() as u64 * 81 * 3, 40, || mk(v), |w, i, st| {
            let d = digits(i, &[81, shapes.len() as u64, 3]);
            let (n, l) = shapes[d[1]];
            let args: Vec<Vec<u8>> = (0..n).map(|k| arg(l, k)).collect();
            let slot = [8, 4][d[0] % 2];
            let need = (n * (l + 1)) as u64 + slot * (n as u64 + 2);
            let size = (need + d[0] as u64).saturating_sub(40);
            let start = [MEM - size.min(MEM), 0x4_0000, 0x3_fff0][d[2]];
            if start + size > MEM {
                return Ok(());
            }
            check(w, &args, &How::Area { start, size, twice: false }, st)
        });
        r.phase(&format!("the whole stack, version {}", v), 120, 2, || mk(v), |w, i, st| {
            let n = 131_072 - 90 + i as usize;
            check(w, &[arg(n, 0)], &How::Program, st)
        });
        r.phase(&format!("equal arguments, version {}", v), 701 * 4, 10, || mk(v), |w, i, st| {
            let d = digits(i, &[701, 4]);
            if q && d[0] > 40 && d[0] % 7 != 0 {
                return Ok(());
            }
            let a: Vec<Vec<u8>> = (0..d[0]).map(|k| arg([0, 7, 15, 300][d[1]], k)).collect();
            check(w, &a, &How::Program, st)
        });
        r.phase(&format!("executable page in the stack, version {}", v), 5 * lists(&some, 2), 20, || mk(v), |w, i, st| {
            let d = digits(i, &[5, lists(&some, 2)]);
            check(w, &list(&some, d[1] as u64), &How::Exec { start: 0x10_000, size: 0x3000, page: 0x0f + d[0] as u64 }, st)
        });
    }
}
