//! Installing many small programs at fresh addresses and running them.
use crate::asmb::*;
use crate::common::*;
use crate::spec::*;

pub struct Arena {
    pub b: Bench,
    lo: u64,
    hi: u64,
    next: u64,
}
impl Arena {
    pub fn new(b: Bench, lo: u64, hi: u64) -> Arena {
        Arena { b, lo, hi, next: lo }
    }
    /// Install every sequence followed by two breakpoints; returns their addresses.
    pub fn install(&mut self, seqs: &[Vec<u8>]) -> Vec<u64> {
        let mut img = vec![];
        let mut at = vec![];
        for s in seqs {
            at.push(img.len() as u64);
            img.extend_from_slice(s);
            img.extend_from_slice(&EBREAK.to_le_bytes());
            img.extend_from_slice(&EBREAK.to_le_bytes());
            while img.len() % 4 != 0 {
                img.push(0);
            }
        }
        let base = self.place(&img, 4);
        at.iter().map(|a| a + base).collect()
    }
    /// Put an image at a fresh address (multiple of `align`), forgetting cached code when wrapping.
    pub fn place(&mut self, img: &[u8], align: u64) -> u64 {
        let mut a = (self.next + align - 1) / align * align;
        if a + img.len() as u64 > self.hi {
            for e in self.b.engs.iter_mut() {
                e.fresh_decoder();
            }
            a = (self.lo + align - 1) / align * align;
        }
        self.next = a + img.len() as u64;
        self.b.put_code(a, img);
        a
    }
}

/// A map from decoded instructions (length ignored) to a 16-bit encoding of the same instruction.
pub fn compressions(c: Cfg) -> std::collections::HashMap<(Op, u8, u8, u8, i64), u16> {
    let mut m = std::collections::HashMap::new();
    for h in 0..=0xffffu32 {
        if h & 3 != 3 {
            if let Some(j) = decode(h, c) {
                m.entry((j.op, j.rd, j.rs1, j.rs2, j.imm)).or_insert(h as u16);
            }
        }
    }
    m
}

/// Mixed radix digits of `i`, least significant first.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = (i % r) as usize;
            i /= r;
            d
        })
        .collect()
}

/// Every way to choose at most `k` of `n` positions, each with one of `alts` alternatives.
pub fn mutations(n: usize, k: usize, alts: usize) -> Vec<Vec<(usize, usize)>> {
    let mut out: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut level: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for m in &level {
            let from = m.last().map_or(0, |l| l.0 + 1);
            for p in from..n {
                for a in 0..alts {
                    let mut q = m.clone();
                    q.push((p, a));
                    nx.push(q);
                }
            }
        }
        out.extend(nx.iter().cloned());
        level = nx;
    }
    out
}
