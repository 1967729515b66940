//! Runs many plans, each in a process of its own, on several workers; minimises what
//! fails; writes replay files and evidence.
use crate::plan::{Arg, Plan};
use crate::shared;
use crate::{gen, inter, rng, sys};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub const PROPS: [&str; 17] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17"];

/// How one run ended.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Verdict {
    /// Empty: no violation.
    pub class: String,
    pub detail: String,
    pub trace: u64,
    /// The harness failed: no verdict.
    pub broken: Option<String>,
}

fn quiet() {
    unsafe {
        let fd = sys::raw(2, c"/dev/null".as_ptr() as i64, 2, 0, 0, 0, 0);
        for to in [1, 2] {
            sys::raw(33, fd, to, 0, 0, 0, 0);
        }
    }
}

/// Runs a plan in a process of its own.
pub fn run_once(p: &Plan) -> Verdict {
    shared::reset();
    let pid = unsafe { inter::real_fork() };
    if pid == 0 {
        if std::env::var_os("SIM_LOUD").is_none() {
            quiet();
        }
        unsafe {
            sys::alarm(60);
            // No core files.
            sys::setrlimit(4, &[0, 0]);
            sys::prctl(1, 9, 0, 0, 0);
        }
        crate::execute(p);
        let s = shared::get();
        if s.status == 0 {
            s.status = 1;
        }
        sys::exit_now(0);
    }
    let mut st = 0;
    unsafe { while sys::waitpid(pid, &mut st, 0) < 0 {} };
    let s = shared::get();
    let text = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).into_owned();
    let mut v = Verdict { trace: s.trace_hash, ..Default::default() };
    let sig = st & 127;
    let doing = text(&s.doing, s.doing_len);
    if s.status == 2 {
        v.class = text(&s.class, s.class_len);
        v.detail = text(&s.detail, s.detail_len);
    } else if s.status == 3 {
        v.broken = Some(text(&s.detail, s.detail_len));
    } else if sig == 9 {
        v.broken = Some(format!("killed during {doing}"));
    } else if sig == 14 {
        v.class = "load-hangs".into();
        v.detail = format!("no progress in a minute during {doing}");
    } else if sig != 0 {
        v.class = "process-died".into();
        let n = match sig {
            6 => "abort",
            11 | 7 => "invalid memory access or stack overflow",
            _ => "a signal",
        };
        v.detail = format!("the process died ({n}, signal {sig}) during {doing}");
    } else if s.status != 1 {
        v.class = "process-exited".into();
        v.detail = format!("the process exited with {} during {doing}", (st >> 8) & 255);
    }
    v
}

// ---------------------------------------------------------------- statistics

#[derive(Default, Clone)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    switches: u64,
    counters: Vec<u64>,
    traces: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    cov: BTreeSet<u32>,
    /// Runs in which new code or a new (edge, switch) was reached, at the time.
    repeated: u64,
    diverged: Vec<u64>,
    broken: Vec<(u64, String)>,
    samples: Vec<u64>,
    fail: Option<(u64, Verdict)>,
}

impl Stats {
    fn write(&self, path: &str) {
        let mut o = String::new();
        let w = &mut o;
        writeln!(w, "n {} {} {} {} {}", self.runs, self.nontrivial, self.steps, self.switches, self.repeated).unwrap();
        let list = |k: &str, it: &mut dyn Iterator<Item = u64>| {
            let mut s = k.to_string();
            for x in it {
                write!(s, " {x}").unwrap();
            }
            s.push('\n');
            s
        };
        o.push_str(&list("c", &mut self.counters.iter().copied()));
        o.push_str(&list("t", &mut self.traces.iter().copied()));
        o.push_str(&list("s", &mut self.scheds.iter().copied()));
        o.push_str(&list("v", &mut self.cov.iter().map(|x| *x as u64)));
        o.push_str(&list("d", &mut self.diverged.iter().copied()));
        o.push_str(&list("m", &mut self.samples.iter().copied()));
        for (i, b) in &self.broken {
            writeln!(o, "b {i} {}", b.replace('\n', " ")).unwrap();
        }
        if let Some((i, v)) = &self.fail {
            writeln!(o, "f {i} {} {} {}", v.trace, v.class, v.detail.replace('\n', "\u{1}")).unwrap();
        }
        std::fs::write(path, o).expect("stats");
    }
    fn read(&mut self, path: &str) -> Result<(), String> {
        let t = std::fs::read_to_string(path).map_err(|e| format!("a worker died: {path}: {e}"))?;
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            let nums = || r.split_whitespace().map(|x| x.parse::<u64>().unwrap_or(0));
            match k {
                "n" => {
                    let v: Vec<u64> = nums().collect();
                    self.runs += v[0];
                    self.nontrivial += v[1];
                    self.steps += v[2];
                    self.switches += v[3];
                    self.repeated += v[4];
                }
                "c" => {
                    self.counters.resize(shared::NCOUNT, 0);
                    for (a, b) in self.counters.iter_mut().zip(nums()) {
                        *a += b;
                    }
                }
                "t" => self.traces.extend(nums()),
                "s" => self.scheds.extend(nums()),
                "v" => self.cov.extend(nums().map(|x| x as u32)),
                "d" => self.diverged.extend(nums()),
                "m" => self.samples.extend(nums()),
                "b" => {
                    let (i, m) = r.split_once(' ').unwrap_or((r, ""));
                    self.broken.push((i.parse().unwrap_or(0), m.into()));
                }
                "f" => {
                    let v: Vec<&str> = r.splitn(4, ' ').collect();
                    let i: u64 = v[0].parse().unwrap_or(0);
                    if self.fail.as_ref().is_none_or(|f| i < f.0) {
                        self.fail = Some((
                            i,
                            Verdict {
                                trace: v[1].parse().unwrap_or(0),
                                class: v[2].into(),
                                detail: v[3].replace('\u{1}', "\n"),
                                broken: None,
                            },
                        ));
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
}

/// How many runs, and how many seconds at most.
fn budget(prop: &str, thorough: bool) -> (u64, f64) {
    let n = match prop {
        "C01" | "C04" | "C05" => 60_000,
        "C02" | "C03" | "C13" => 40_000,
        "C12" => 6_000,
        "C11" => 16_000,
        "C07" | "C06" | "C09" => 24_000,
        _ => 20_000,
    };
    let cap = std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok());
    if thorough {
        (n * 20, cap.unwrap_or(780.0))
    } else {
        (n, cap.unwrap_or(60.0))
    }
}

fn worker(prop: &str, seed: u64, n: u64, cap: f64, me: u64, of: u64, stop: *mut u64, path: &str) {
    shared::init();
    // A worker and all its runs stay on one processor: exactly one thread runs.
    unsafe {
        let mut mask = [0u64; 16];
        if sys::raw(204, 0, 128, mask.as_mut_ptr() as i64, 0, 0, 0) > 0 {
            let cpus: Vec<usize> = (0..1024).filter(|i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
            if cpus.len() as u64 >= of {
                let c = cpus[me as usize];
                let mut one = [0u64; 16];
                one[c / 64] = 1 << (c % 64);
                sys::raw(203, 0, 128, one.as_ptr() as i64, 0, 0, 0);
            }
        }
    }
    let start = sys::real_now();
    let mut s = Stats { counters: vec![0; shared::NCOUNT], ..Default::default() };
    let mut i = me;
    while i < n && sys::real_now() - start < cap {
        if i > unsafe { std::ptr::read_volatile(stop) } {
            break;
        }
        let p = gen::plan(prop, seed, i);
        let mut v = run_once(&p);
        if v.broken.is_some() || v.class == "load-hangs" {
            // Memory pressure or a stopped machine: once more.
            v = run_once(&p);
        }
        let sh = shared::get();
        s.runs += 1;
        s.steps += sh.steps;
        s.switches += sh.switches;
        let mut faults = 0;
        for (k, c) in sh.counters.iter().enumerate() {
            s.counters[k] += c;
            if k != shared::C::HashSeed as usize
                && k != shared::C::StackBound as usize
                && shared::NAMES.get(k).is_some_and(|n| n.starts_with("F:"))
            {
                faults += c;
            }
        }
        let loads = sh.counters[shared::C::LoadOk as usize]
            + sh.counters[shared::C::LoadErr as usize]
            + sh.counters[shared::C::LoadPanic as usize];
        if faults > 0 && loads > 0 {
            s.nontrivial += 1;
            s.traces.insert(sh.trace_hash);
            if s.samples.len() < 2 && i >= 16 {
                s.samples.push(i);
            }
        }
        if sh.switches > 0 {
            s.scheds.insert(sh.sched_hash);
        }
        if let Some(b) = v.broken {
            s.broken.push((i, b));
        } else if !v.class.is_empty() {
            unsafe {
                if i < std::ptr::read_volatile(stop) {
                    std::ptr::write_volatile(stop, i);
                }
            }
            s.fail = Some((i, v));
            break;
        } else if i / of % 64 == 0 {
            // The same plan must give the same trace.
            s.repeated += 1;
            if run_once(&p).trace != v.trace {
                s.diverged.push(i);
            }
        }
        i += of;
    }
    for (k, c) in shared::get().cov.iter().enumerate() {
        if *c != 0 {
            s.cov.insert(k as u32);
        }
    }
    s.write(path);
}

fn work_dir() -> String {
    let d = format!("{}/.work/{}", root(), std::process::id());
    std::fs::create_dir_all(&d).expect("work dir");
    d
}
fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

// ---------------------------------------------------------------- minimising

/// Whether a plan fails in the same way.
fn fails(p: &Plan, class: &str) -> Option<Verdict> {
    let v = run_once(p);
    (v.broken.is_none() && v.class == class).then_some(v)
}

fn minimise(mut p: Plan, class: &str, budget: f64) -> (Plan, u64) {
    let start = sys::real_now();
    let mut tries = 0u64;
    let mut ok = |p: &Plan| {
        tries += 1;
        sys::real_now() - start < budget && fails(p, class).is_some()
    };
    loop {
        let before = p.clone();
        // Drop records, in ever smaller pieces.
        let mut size = (p.recs.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < p.recs.len() {
                let mut q = p.clone();
                q.recs.drain(i..(i + size).min(p.recs.len()));
                if ok(&q) {
                    p = q;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Shrink numbers and texts.
        for i in 0..p.recs.len() {
            for j in 0..p.recs[i].a.len() {
                match p.recs[i].a[j].clone() {
                    Arg::I(v) => {
                        for c in [0, 1, v / 2, v - v.signum()] {
                            if c.unsigned_abs() < p.recs[i].i(j).unsigned_abs() {
                                let mut q = p.clone();
                                q.recs[i].a[j] = Arg::I(c);
                                if ok(&q) {
                                    p = q;
                                }
                            }
                        }
                    }
                    Arg::S(s) => {
                        let k = p.recs[i].k.as_str();
                        if j == 0 && matches!(k, "cfg" | "ev") || matches!(k, "op" | "doc" | "la") {
                            continue;
                        }
                        let words: Vec<&str> = s.split(' ').collect();
                        let mut keep = words.clone();
                        let mut n = 0;
                        while n < keep.len() {
                            let mut t = keep.clone();
                            t.remove(n);
                            let mut q = p.clone();
                            q.recs[i].a[j] = Arg::S(t.join(" "));
                            if ok(&q) {
                                p = q;
                                keep = t;
                            } else {
                                n += 1;
                            }
                        }
                        let mut chars: Vec<char> = keep.join(" ").chars().collect();
                        let mut size = (chars.len() / 2).max(1);
                        loop {
                            let mut n = 0;
                            while n < chars.len() {
                                let mut t = chars.clone();
                                t.drain(n..(n + size).min(chars.len()));
                                let mut q = p.clone();
                                q.recs[i].a[j] = Arg::S(t.iter().collect());
                                if ok(&q) {
                                    p = q;
                                    chars = t;
                                } else {
                                    n += size;
                                }
                            }
                            if size == 1 {
                                break;
                            }
                            size /= 2;
                        }
                    }
                }
            }
        }
        if p == before || sys::real_now() - start > budget {
            return (p, tries);
        }
    }
}

// ---------------------------------------------------------------- commands

fn header<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    t.lines().find_map(|l| l.strip_prefix(&format!("# {k}: ")))
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let p = match Plan::parse(&t) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    shared::init();
    let v = run_once(&p);
    let want = (header(&t, "class"), header(&t, "trace"));
    println!("property={} class={} trace={:016x}", p.prop, v.class, v.trace);
    println!("{}", v.detail);
    if let Some(b) = v.broken {
        eprintln!("harness: {b}");
        return 2;
    }
    if let (Some(c), Some(h)) = want {
        println!("as recorded: {}", c == v.class && h == format!("{:016x}", v.trace));
    }
    if v.class.is_empty() {
        println!("no violation");
        0
    } else {
        println!("VIOLATION property={} replay={path}", p.prop);
        1
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

/// Entries `known: property=<id> class=<class> match=<text>` of the findings file.
fn known(prop: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix(&format!("known: property={prop} class="))?;
            let (c, m) = r.split_once(" match=")?;
            Some((c.to_string(), m.to_string(), l.to_string()))
        })
        .collect()
}

fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let start = sys::real_now();
    let (mut n, mut cap) = budget(prop, tier == "thorough");
    if let Ok(x) = std::env::var("SIM_RUNS") {
        n = x.parse().unwrap_or(n);
    }
    if let Ok(x) = std::env::var("SIM_CAP") {
        cap = x.parse().unwrap_or(cap);
    }
    let of = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64);
    let dir = work_dir();
    let stop = sys::map_shared(4096) as *mut u64;
    unsafe { *stop = u64::MAX };
    let mut pids = Vec::new();
    for w in 0..of {
        let pid = unsafe { inter::real_fork() };
        if pid == 0 {
            unsafe { sys::prctl(1, 9, 0, 0, 0) };
            worker(prop, seed, n, cap, w, of, stop, &format!("{dir}/w{w}"));
            sys::exit_now(0);
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while sys::waitpid(p, &mut st, 0) < 0 {} };
    }
    let mut s = Stats::default();
    for w in 0..of {
        if let Err(e) = s.read(&format!("{dir}/w{w}")) {
            eprintln!("harness: {e}");
            return 2;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let searched = sys::real_now() - start;
    let mut code = 0;
    let mut violation = String::new();
    if let Some((i, v)) = &s.fail {
        shared::init();
        let p = gen::plan(prop, seed, *i);
        let k = known(prop);
        if let Some(f) = k.iter().find(|f| f.0 == v.class && v.detail.contains(&f.1)) {
            // A listed finding stops the search: list narrowly, and repair.
            println!("KNOWN-FINDING: property={prop} {}", f.2);
        } else {
            eprintln!("run {i}: {}: {}", v.class, v.detail);
            let (small, tries) = minimise(p.clone(), &v.class, if tier == "thorough" { 240.0 } else { 60.0 });
            let (p, fin, sure) = match fails(&small, &v.class) {
                Some(f) => (small, f, true),
                None => (p, v.clone(), false),
            };
            let dir = format!("{}/replays", root());
            std::fs::create_dir_all(&dir).expect("replays");
            let path = format!("{dir}/{prop}-s{seed}-r{i}.plan");
            let mut t = String::new();
            writeln!(t, "# property: {prop}\n# class: {}\n# trace: {:016x}", fin.class, fin.trace).unwrap();
            writeln!(t, "# seed: {seed}\n# run: {i}").unwrap();
            writeln!(t, "# minimised: {} ({tries} runs)", sure).unwrap();
            for l in fin.detail.lines() {
                writeln!(t, "# {l}").unwrap();
            }
            t.push_str(&p.text());
            std::fs::write(&path, t).expect("replay file");
            println!("{}: {}", fin.class, fin.detail);
            println!("VIOLATION property={prop} replay={path}");
            violation = path;
            code = 1;
        }
    } else if s.broken.len() as u64 * 100 > s.runs || s.runs == 0 {
        code = 2;
    }
    for (i, b) in s.broken.iter().take(3) {
        eprintln!("harness: run {i}: {b}");
    }
    if !s.diverged.is_empty() {
        eprintln!("warning: {} of {} repeated runs diverged, first {}", s.diverged.len(), s.repeated, s.diverged[0]);
    }
    evidence(prop, tier, seed, &s, searched, sys::real_now() - start, code, &violation);
    println!(
        "{prop} {tier} seed={seed}: {} runs ({} distinct non-trivial), {:.0} runs/s, {} steps, {} switches, {} code edges, {:.1} s, exit {code}",
        s.runs,
        s.traces.len(),
        s.runs as f64 / searched,
        s.steps,
        s.switches,
        s.cov.len(),
        sys::real_now() - start
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, s: &Stats, searched: f64, wall: f64, code: i32, violation: &str) {
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, n) in s.counters.iter().enumerate() {
        if let Some(name) = shared::NAMES.get(k) {
            if *n > 0 {
                if let Some(f) = name.strip_prefix("F:") {
                    faults.insert(f, *n);
                } else {
                    probes.insert(&name[2..], *n);
                }
            }
        }
    }
    let map = |m: &BTreeMap<&str, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let mut samples: Vec<String> = Vec::new();
    for i in s.samples.iter().take(3) {
        let t = gen::plan(prop, seed, *i).text();
        let t: String = t.chars().take(3000).collect();
        samples.push(format!("{{\"run\": {i}, \"plan\": {}}}", json(&t)));
    }
    let storage = matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C13");
    let rule = if storage {
        "A case is one simulated run: a document written by simulated writers through a simulated storage stack, drawn from (VERIF_SEED, run number), with the storage faults, writer schedule, hash seeds and stack size drawn with it, then loaded by the real library. Non-trivial: at least one fault (or writer switch) fired and a load was made. Distinct: by the hash of the run's trace (surviving text, results, diagnostics, switches)."
    } else {
        "A case is one simulated run: 1 to 7 application threads, their operations, documents, logger behaviour, schedule and faults drawn from (VERIF_SEED, run number), executed by the real library under the simulated scheduler, allocator, logger and operating system. Non-trivial: at least one preemption or other fault fired and a load was made. Distinct: by the hash of the run's trace (every switch with its position, every diagnostic, every result)."
    };
    let per_h = |x: f64| x / searched.max(0.001) * 3600.0;
    let o = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"wall_s\": {wall:.3},\n \"violations\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"nontrivial_runs\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"seed_note\": {},\n  \"simulated_seconds\": {:.6},\n  \"simulated_time_note\": \"10 ns for each basic block or memory access step inside a load; sleeps of the simulated logger and clock jumps are not added\",\n  \"steps\": {},\n  \"context_switches\": {},\n  \"distinct_interleavings\": {},\n  \"distinct_interleavings_measure\": \"hash of the sequence of (last basic block of the code under test, from thread, to thread) over all switches of a run\",\n  \"code_edges_reached\": {},\n  \"code_edges_measure\": \"SanitizerCoverage guards in nobject_rs, nom and log executed inside loads\",\n  \"faults_injected\": {},\n  \"probes\": {},\n  \"determinism\": {{\"runs_repeated\": {}, \"diverged\": {}}},\n  \"harness_failures\": {},\n  \"replay\": {},\n  \"components\": {}\n }},\n \"assumptions\": {}\n}}\n",
        json(prop),
        json(tier),
        (code == 1) as i32,
        s.runs,
        s.traces.len(),
        json(rule),
        samples.join(", "),
        s.nontrivial,
        per_h(s.runs as f64),
        per_h(s.runs as f64),
        json("each run has a seed of its own, derived from VERIF_SEED and the run number"),
        s.steps as f64 * 1e-8,
        s.steps,
        s.switches,
        s.scheds.len(),
        s.cov.len(),
        map(&faults),
        map(&probes),
        s.repeated,
        s.diverged.len(),
        s.broken.len(),
        json(violation),
        "{\"real\": [\"nobject-rs (all of it, unmodified, instrumented by the compiler)\", \"nom\", \"log facade\", \"Rust standard library\"], \"simulated\": [\"thread schedule\", \"lock waits (futex)\", \"clock and sleeps\", \"hash seeds\", \"allocator\", \"allocation error handler\", \"logger\", \"file system, environment, network and process calls made inside a load\", \"storage and writers\"]}",
        "[\"memory is sequentially consistent in the simulation: one thread runs at a time\", \"the compiler's instrumentation does not change what the code does\"]"
    );
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir).expect("evidence");
    std::fs::write(format!("{dir}/{prop}.json"), o).expect("evidence");
}

/// Every run twice, in different processes and in another order: same trace.
fn selftest(n: u64, seed: u64) -> i32 {
    shared::init();
    let mut bad = 0;
    for prop in PROPS {
        let mut first = Vec::new();
        for i in 0..n {
            first.push(run_once(&gen::plan(prop, seed, i)));
        }
        for i in (0..n).rev() {
            let p = gen::plan(prop, seed, i);
            let text = p.text();
            let q = Plan::parse(&text).expect("parse");
            if q != p {
                println!("{prop} run {i}: the plan is not what its text says");
                bad += 1;
            }
            let v = run_once(&q);
            if v != first[i as usize] {
                println!("{prop} run {i}: {:?} then {v:?}", first[i as usize]);
                bad += 1;
            }
        }
        let h = first.iter().fold(0, |a, v| rng::mix(a ^ v.trace));
        println!("{prop}: {n} runs twice, trace of traces {h:016x}");
    }
    println!("{bad} differences");
    (bad != 0) as i32
}

pub fn main() {
    // Fixed addresses, so that a run in one process is the same in another.
    unsafe {
        const NO_RANDOMIZE: i64 = 0x0040000;
        let now = sys::raw(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if now >= 0 && now & NO_RANDOMIZE == 0 && sys::raw(135, now | NO_RANDOMIZE, 0, 0, 0, 0, 0) >= 0 {
            use std::os::unix::process::CommandExt;
            if let Ok(exe) = std::env::current_exe() {
                let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
            }
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let tier = opt("--tier").unwrap_or_else(|| "quick".into());
    let code = match (a.get(1).map(String::as_str), a.get(2)) {
        (Some("check"), Some(p)) if PROPS.contains(&p.as_str()) => check(p, &tier, seed),
        (Some("replay"), Some(f)) => replay(f),
        (Some("selftest"), n) => selftest(n.and_then(|n| n.parse().ok()).unwrap_or(100), seed),
        (Some("plan"), Some(p)) => {
            let i = a.get(3).and_then(|n| n.parse().ok()).unwrap_or(0);
            print!("{}", gen::plan(p, seed, i).text());
            0
        }
        (Some("profile"), Some(p)) => {
            // Where the time goes: the slowest of N runs.
            shared::init();
            let n = a.get(3).and_then(|n| n.parse().ok()).unwrap_or(1000);
            let mut all: Vec<(u64, u64)> = Vec::new();
            for i in 0..n {
                let t = sys::real_now();
                run_once(&gen::plan(p, seed, i));
                all.push((((sys::real_now() - t) * 1e6) as u64, i));
            }
            all.sort_unstable();
            let total: u64 = all.iter().map(|x| x.0).sum();
            println!("{n} runs, {} ms, median {} us", total / 1000, all[all.len() / 2].0);
            for x in all.iter().rev().take(15) {
                println!("  run {}: {} us", x.1, x.0);
            }
            let mut sum = 0;
            for (k, x) in all.iter().rev().enumerate() {
                sum += x.0;
                if [1, 10, 30, 100, 300].contains(&(k + 1)) {
                    println!("  slowest {}: {} % of the time", k + 1, sum * 100 / total);
                }
            }
            0
        }
        (Some("run"), Some(p)) => {
            shared::init();
            let i = a.get(3).and_then(|n| n.parse().ok()).unwrap_or(0);
            println!("{:?}", run_once(&gen::plan(p, seed, i)));
            0
        }
        _ => {
            eprintln!("usage: sim check ID [--tier T] [--seed N] | replay FILE | selftest [N] | plan ID N | run ID N");
            2
        }
    };
    std::process::exit(code);
}
