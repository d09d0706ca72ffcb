//! Exploration framework: exhaustive indexed spaces, crash/hang supervision, replay, evidence.
use std::any::Any;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseRes = Result<(), String>;

#[derive(Default, Clone)]
pub struct Stats {
    /// model states visited
    pub states: u64,
    /// model transitions taken
    pub transitions: u64,
    /// runs of the real implementation compared with the model
    pub traces: u64,
    pub extra: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn bump(&mut self, k: &str, n: u64) {
        if let Some(v) = self.extra.get_mut(k) {
            *v += n;
        } else {
            self.extra.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.extra {
            *self.extra.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub phase: String,
    pub a: u64,
    pub i: u64,
    pub detail: String,
}

struct Replay {
    phase: String,
    a: u64,
    i: u64,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    replay: Option<Replay>,
    threads: usize,
    phase_no: u64,
    pub stats: Stats,
    phases: Vec<(String, u64, u64, f64)>, // name, size, explored, secs
    pub found: Vec<Found>,
    slots: Slots,
    bounds: Vec<String>,
    assumptions: Vec<String>,
    known: Vec<(String, String)>,
    pub known_hits: BTreeMap<String, u64>,
    replay_ran: bool,
    only: Option<String>,
}

// ---------------------------------------------------------------- shared slots
const NSLOT: usize = 64;
const SLOTW: usize = 8; // active, phase, a, i, states, transitions, traces
pub struct Slots {
    p: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
impl Slots {
    pub fn open(path: Option<&Path>) -> Slots {
        let len = NSLOT * SLOTW * 8;
        let p = unsafe {
            match path {
                Some(path) => {
                    use std::os::unix::io::AsRawFd;
                    let f = std::fs::OpenOptions::new()
                        .read(true)
                        .write(true)
                        .create(true)
                        .truncate(false)
                        .open(path)
                        .unwrap();
                    f.set_len(len as u64).unwrap();
                    mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0)
                }
                None => mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0),
            }
        };
        assert!(p as isize != -1);
        Slots { p: p as *mut u64 }
    }
    #[inline(always)]
    fn set(&self, s: usize, k: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.p.add(s * SLOTW + k), v) }
    }
    fn get(&self, s: usize, k: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.p.add(s * SLOTW + k)) }
    }
}

fn panic_text(e: Box<dyn Any + Send>) -> String {
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    format!("host panic: {} at {}", m, loc)
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = l);
    }));
}

impl Run {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Pick a bound by tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }

    /// Explore every index of 0..n. `mk` builds worker state, fresh for every chunk, so a case is
    /// reproducible from (phase, chunk start, index).
    pub fn phase<S>(
        &mut self,
        name: &str,
        n: u64,
        chunk: u64,
        mk: impl Fn() -> S + Sync,
        f: impl Fn(&mut S, u64, &mut Stats) -> CaseRes + Sync,
    ) {
        self.phase_no += 1;
        let no = self.phase_no;
        // a panic while a worker is being prepared is a finding at the first index of its chunk
        let mk = || catch_unwind(AssertUnwindSafe(&mk)).map_err(|e| format!("while preparing: {}", panic_text(e)));
        let run_case = |s: &mut Result<S, String>, i: u64, st: &mut Stats| -> CaseRes {
            let s = match s {
                Ok(s) => s,
                Err(m) => return Err(m.clone()),
            };
            match catch_unwind(AssertUnwindSafe(|| f(s, i, st))) {
                Ok(r) => r,
                Err(e) => Err(panic_text(e)),
            }
        };
        if let Some(r) = &self.replay {
            // phase identified by its name, or (after a crash) by its number
            if r.phase == name || r.phase == format!("#{}", no) {
                self.replay_ran = true;
                let mut st = Stats::default();
                let mut s = mk();
                for i in r.a..=r.i {
                    if let Err(d) = run_case(&mut s, i, &mut st) {
                        if i == r.i {
                            println!("REPLAYED phase={} index={} : {}", name, i, d);
                            self.found.push(Found {
                                phase: name.into(),
                                a: r.a,
                                i,
                                detail: d,
                            });
                        }
                        return;
                    }
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if !self.found.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let chunk = chunk.max(1);
        let out: Mutex<(Vec<Found>, Stats, BTreeMap<String, u64>)> =
            Mutex::new((vec![], Stats::default(), BTreeMap::new()));
        let slots = &self.slots;
        let known = &self.known;
        let nchunks = (n + chunk - 1) / chunk;
        let threads = (self.threads as u64).min(nchunks.max(1)) as usize;
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, done, stop, out, mk, run_case) =
                    (&next, &done, &stop, &out, &mk, &run_case);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        let mut kh: BTreeMap<String, u64> = BTreeMap::new();
                        slots.set(t, 1, no);
                        'outer: loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= n {
                                break;
                            }
                            let b = (a + chunk).min(n);
                            slots.set(t, 2, a);
                            slots.set(t, 3, a);
                            slots.set(t, 0, 1);
                            let mut s = mk();
                            let mut i = a;
                            while i < b {
                                slots.set(t, 3, i);
                                let r = run_case(&mut s, i, &mut st);
                                if let Err(d) = r {
                                    if let Some((k, _)) =
                                        known.iter().find(|(k, _)| d.contains(k.as_str()))
                                    {
                                        *kh.entry(k.clone()).or_insert(0) += 1;
                                        // the worker state is suspect after a finding
                                        s = mk();
                                        i += 1;
                                        continue;
                                    }
                                    out.lock().unwrap().0.push(Found {
                                        phase: name.into(),
                                        a,
                                        i,
                                        detail: d,
                                    });
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                                i += 1;
                            }
                            done.fetch_add(b - a, Ordering::Relaxed);
                            slots.set(t, 4, st.states);
                            slots.set(t, 5, st.transitions);
                            slots.set(t, 6, st.traces);
                        }
                        slots.set(t, 0, 0);
                        let mut o = out.lock().unwrap();
                        o.1.merge(st);
                        for (k, v) in kh {
                            *o.2.entry(k).or_insert(0) += v;
                        }
                    })
                    .unwrap();
            }
        });
        let (mut found, st, kh) = out.into_inner().unwrap();
        self.stats.merge(st);
        for (k, v) in kh {
            *self.known_hits.entry(k).or_insert(0) += v;
        }
        let secs = t0.elapsed().as_secs_f64();
        self.phases
            .push((name.into(), n, done.load(Ordering::Relaxed), secs));
        eprintln!(
            "[{}] phase {:<34} {:>12} cases {:>7.1}s",
            self.id, name, n, secs
        );
        found.sort_by_key(|f| f.i);
        if let Some(f) = found.into_iter().next() {
            // confirm: re-execute from a fresh worker state
            let mut confirmed = false;
            let t0 = std::time::Instant::now();
            // (a fault may depend on the order of a hash table: give it some chances)
            for k in 0..64 {
                if k >= 5 && t0.elapsed().as_secs() > 40 {
                    break;
                }
                let mut st = Stats::default();
                let mut s = mk();
                for i in f.a..=f.i {
                    let r = run_case(&mut s, i, &mut st);
                    if i == f.i && r.is_err() {
                        confirmed = true;
                    }
                }
                if confirmed {
                    break;
                }
            }
            if confirmed {
                self.found.push(f);
            } else {
                eprintln!("UNCONFIRMED (not reproducible, machinery error): {:?}", f);
                std::process::exit(2);
            }
        }
    }
}

// ---------------------------------------------------------------- files
pub fn verif_dir() -> PathBuf {
    std::env::var("MC_VERIF")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines: "known: property=<ID> match=<text that the violation detail contains> | <description>"
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} match=", id)) {
                let mut p = r.splitn(2, " | ");
                let k = p.next().unwrap_or("").trim().to_string();
                let d = p.next().unwrap_or("").trim().to_string();
                if !k.is_empty() {
                    v.push((k, d));
                }
            }
        }
    }
    v
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick {
        "quick"
    } else {
        "thorough"
    }
}

fn write_evidence(
    id: &str,
    tier: Tier,
    seed: u64,
    st: &Stats,
    phases: &[(String, u64, u64, f64)],
    bounds: &[String],
    assumptions: &[String],
    violations: &[String],
    known: &BTreeMap<String, u64>,
    wall: f64,
) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        json_str(id),
        json_str(tier_name(tier)),
        seed
    ));
    s.push_str(&format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
        st.states, st.transitions, st.traces
    ));
    s.push_str(&format!(
        "  \"exhaustive\": {},\n",
        violations.is_empty() && phases.iter().all(|p| p.1 == p.2)
    ));
    s.push_str("  \"phases\": [");
    for (k, p) in phases.iter().enumerate() {
        s.push_str(&format!(
            "{}\n   {{\"name\": {}, \"space\": {}, \"explored\": {}, \"secs\": {:.2}}}",
            if k > 0 { "," } else { "" },
            json_str(&p.0),
            p.1,
            p.2,
            p.3
        ));
    }
    s.push_str("\n  ],\n  \"counts\": {");
    for (k, (n, v)) in st.extra.iter().enumerate() {
        s.push_str(&format!(
            "{}{}: {}",
            if k > 0 { ", " } else { "" },
            json_str(n),
            v
        ));
    }
    s.push_str("},\n  \"known_finding_hits\": {");
    for (k, (n, v)) in known.iter().enumerate() {
        s.push_str(&format!(
            "{}{}: {}",
            if k > 0 { ", " } else { "" },
            json_str(n),
            v
        ));
    }
    s.push_str("},\n  \"explanation\": ");
    s.push_str(&json_str(&format!(
        "Every index of every listed phase is executed (no sampling). The boring reference model in harness/src/spec.rs (and the per-check models) is stepped through each behaviour and the real implementation, built from /repo's working tree, is run on the same behaviour and compared. Bounds: {}",
        bounds.join("; ")
    )));
    s.push_str(",\n  \"samples\": [");
    for (k, x) in st.samples.iter().enumerate() {
        s.push_str(&format!("{}\n   {}", if k > 0 { "," } else { "" }, json_str(x)));
    }
    s.push_str("\n  ]\n },\n");
    s.push_str(&format!(" \"wall_s\": {:.2},\n \"assumptions\": [", wall));
    for (k, x) in assumptions.iter().enumerate() {
        s.push_str(&format!("{}{}", if k > 0 { ", " } else { "" }, json_str(x)));
    }
    s.push_str("],\n \"violations\": [");
    for (k, x) in violations.iter().enumerate() {
        s.push_str(&format!("{}{}", if k > 0 { ", " } else { "" }, json_str(x)));
    }
    s.push_str("]\n}\n");
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), s).expect("write evidence");
}

fn report(id: &str, tier: Tier, f: &Found) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.txt", id));
    let t = format!(
        "property={}\ntier={}\nphase={}\na={}\ni={}\ndetail={}\n# re-execute: /verif/run.sh {} --replay {}\n",
        id,
        tier_name(tier),
        f.phase,
        f.a,
        f.i,
        f.detail.replace('\n', " | "),
        id,
        path.display()
    );
    let _ = std::fs::write(&path, t);
    println!("DETAIL property={} phase={} index={}: {}", id, f.phase, f.i, f.detail);
    println!("VIOLATION property={} replay={}", id, path.display());
    let _ = std::io::stdout().flush();
    path.display().to_string()
}

pub type CheckFn = fn(&mut Run);

pub fn main_with(checks: &[(&str, CheckFn)]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let chk = match checks.iter().find(|c| c.0 == id) {
        Some(c) => c.1,
        None => {
            eprintln!("usage: mc <ID> [--quick|--thorough] [--replay FILE]");
            std::process::exit(2)
        }
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut child: Option<PathBuf> = None;
    let mut replay: Option<Replay> = None;
    let mut only = None;
    let mut k = 2;
    while k < args.len() {
        match args[k].as_str() {
            "--quick" => tier = Tier::Quick,
            "--thorough" => tier = Tier::Thorough,
            "--child" => {
                child = Some(PathBuf::from(&args[k + 1]));
                k += 1;
            }
            "--only" => {
                only = Some(args[k + 1].clone());
                k += 1;
            }
            "--case" => {
                replay = Some(Replay {
                    phase: args[k + 1].clone(),
                    a: args[k + 2].parse().unwrap(),
                    i: args[k + 3].parse().unwrap(),
                });
                k += 3;
            }
            "--replay" => {
                let t = std::fs::read_to_string(&args[k + 1]).expect("replay file");
                let get = |n: &str| {
                    t.lines()
                        .find_map(|l| l.strip_prefix(&format!("{}=", n)))
                        .unwrap_or("")
                        .to_string()
                };
                if get("tier") == "thorough" {
                    tier = Tier::Thorough
                }
                replay = Some(Replay {
                    phase: get("phase"),
                    a: get("a").parse().unwrap(),
                    i: get("i").parse().unwrap(),
                });
                k += 1;
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2)
            }
        }
        k += 1;
    }
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(8)
        })
        .min(NSLOT);
    if let Some(r) = replay {
        install_panic_hook();
        let mut run = new_run(&id, tier, seed, Some(r), threads, Slots::open(None), None);
        guarded(chk, &mut run);
        if !run.replay_ran && run.found.is_empty() {
            eprintln!("no such phase");
            std::process::exit(2);
        }
        std::process::exit(if run.found.is_empty() {
            println!("REPLAY: property held");
            0
        } else {
            1
        });
    }
    if let Some(sl) = child {
        install_panic_hook();
        let t0 = Instant::now();
        let mut run = new_run(&id, tier, seed, None, threads, Slots::open(Some(&sl)), only);
        guarded(chk, &mut run);
        let mut viol = vec![];
        for f in &run.found {
            report(&id, tier, f);
            viol.push(f.detail.clone());
        }
        for (k, d) in &run.known {
            println!(
                "KNOWN-FINDING: property={} {} [{}; hit {} times in this run]",
                id,
                d,
                k,
                run.known_hits.get(k).copied().unwrap_or(0)
            );
        }
        write_evidence(
            &id,
            tier,
            seed,
            &run.stats,
            &run.phases,
            &run.bounds,
            &run.assumptions,
            &viol,
            &run.known_hits,
            t0.elapsed().as_secs_f64(),
        );
        println!(
            "{} {}: states={} transitions={} traces={} wall={:.1}s {}",
            id,
            tier_name(tier),
            run.stats.states,
            run.stats.transitions,
            run.stats.traces,
            t0.elapsed().as_secs_f64(),
            if viol.is_empty() { "HELD" } else { "VIOLATED" }
        );
        std::process::exit(if viol.is_empty() { 0 } else { 1 });
    }
    supervise(&id, tier, seed, &args[2..]);
}

/// A panic between the phases (preparing programs or expectations with the code under test) is
/// a finding as well, unless there is one already.
fn guarded(chk: CheckFn, run: &mut Run) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| chk(run))) {
        let d = format!("between phases: {}", panic_text(e));
        if run.found.is_empty() {
            println!("SETUP: {}", d);
            run.found.push(Found { phase: "(setup)".into(), a: 0, i: 0, detail: d });
        }
    }
}

fn new_run(
    id: &str,
    tier: Tier,
    seed: u64,
    replay: Option<Replay>,
    threads: usize,
    slots: Slots,
    only: Option<String>,
) -> Run {
    Run {
        id: id.into(),
        tier,
        seed,
        replay,
        threads,
        phase_no: 0,
        stats: Stats::default(),
        phases: vec![],
        found: vec![],
        slots,
        bounds: vec![],
        assumptions: vec![],
        known: known_findings(id),
        known_hits: BTreeMap::new(),
        replay_ran: false,
        only,
    }
}

enum Died {
    Exit(i32),
    Signal(i32),
    Hang,
}

fn run_child(cmd: &mut Command, slots: Option<&Slots>, hang: Duration) -> Died {
    use std::os::unix::process::ExitStatusExt;
    let mut ch = cmd.stdin(Stdio::null()).spawn().expect("spawn");
    let mut last: Vec<(u64, u64, u64)> = vec![(0, 0, 0); NSLOT];
    let mut since = vec![Instant::now(); NSLOT];
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return match st.signal() {
                Some(s) => Died::Signal(s),
                None => Died::Exit(st.code().unwrap_or(2)),
            };
        }
        let mut hung = false;
        if let Some(s) = slots {
            for t in 0..NSLOT {
                let cur = (s.get(t, 1), s.get(t, 2), s.get(t, 3));
                if s.get(t, 0) == 0 || cur != last[t] {
                    last[t] = cur;
                    since[t] = Instant::now();
                } else if since[t].elapsed() > hang {
                    hung = true;
                }
            }
        } else if t0.elapsed() > hang {
            hung = true;
        }
        if hung {
            let _ = ch.kill();
            let _ = ch.wait();
            return Died::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(id: &str, tier: Tier, seed: u64, extra: &[String]) {
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let slotp = std::env::temp_dir().join(format!("mc-slots-{}-{}", id, std::process::id()));
    let hang = Duration::from_secs(90);
    for attempt in 0..2 {
        let _ = std::fs::remove_file(&slotp);
        let slots = Slots::open(Some(&slotp));
        let mut c = Command::new(&exe);
        c.arg(id).args(extra).arg("--child").arg(&slotp);
        let d = run_child(&mut c, Some(&slots), hang);
        let what = match d {
            Died::Exit(c) => {
                let _ = std::fs::remove_file(&slotp);
                std::process::exit(c)
            }
            Died::Signal(s) => format!("signal {}", s),
            Died::Hang => "a hang".into(),
        };
        eprintln!("[{}] exploration child ended by {}; isolating", id, what);
        let mut st = Stats::default();
        let mut suspects = vec![];
        for t in 0..NSLOT {
            st.states += slots.get(t, 4);
            st.transitions += slots.get(t, 5);
            st.traces += slots.get(t, 6);
            if slots.get(t, 0) == 1 {
                suspects.push((slots.get(t, 1), slots.get(t, 2), slots.get(t, 3)));
            }
        }
        suspects.sort();
        for (p, a, i) in suspects {
            let mut c = Command::new(&exe);
            c.arg(id)
                .arg(if tier == Tier::Quick { "--quick" } else { "--thorough" })
                .args(["--case", &format!("#{}", p), &a.to_string(), &i.to_string()])
                .stdout(Stdio::null());
            let r = run_child(&mut c, None, hang);
            let dead = match r {
                Died::Signal(9) => None, // killed from outside (memory pressure), not evidence
                Died::Signal(s) => Some(format!("host process killed by signal {}", s)),
                Died::Hang => Some("host process hangs (no progress)".to_string()),
                Died::Exit(1) => Some("violation".to_string()),
                Died::Exit(_) => None,
            };
            if let Some(x) = dead {
                let f = Found {
                    phase: format!("#{}", p),
                    a,
                    i,
                    detail: format!("{} while executing this case", x),
                };
                report(id, tier, &f);
                write_evidence(
                    id,
                    tier,
                    seed,
                    &st,
                    &[],
                    &[],
                    &[],
                    &[f.detail.clone()],
                    &BTreeMap::new(),
                    t0.elapsed().as_secs_f64(),
                );
                let _ = std::fs::remove_file(&slotp);
                std::process::exit(1);
            }
        }
        eprintln!("[{}] attempt {}: not confirmed in isolation", id, attempt);
    }
    let _ = std::fs::remove_file(&slotp);
    std::process::exit(2);
}
