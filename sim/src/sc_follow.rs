//! Runs in which readers load a file again and again while a writer appends to it, starts
//! it anew or puts another in its place: C17. What a reader gets to see is a prefix of what
//! is written, or, if the file changes under its hands, a mixture of versions.
use crate::inter::env;
use crate::load::load;
use crate::plan::Plan;
use crate::sc_storage::{decode, judge, unwound, Expect};
use crate::sc_threads::buffer;
use crate::shared::{self, count, C};
use crate::{alloc, gen, rng, sched};
use std::collections::BTreeSet;

struct Op {
    task: usize,
    kind: String,
    a: i64,
}

#[derive(Default)]
struct Reader {
    /// The file which is open, how far it has been read, and what was read.
    open: Option<usize>,
    got: Vec<u8>,
    /// Which file and up to where it has been loaded (for deltas).
    seen: (usize, usize),
}

struct World {
    mtl: bool,
    how: i64,
    /// What each generation of the file will be, and where its lines end.
    gens: Vec<Vec<u8>>,
    nl: usize,
    written: BTreeSet<String>,
    /// Files; the last part of a path is a name for one of them.
    files: Vec<Vec<u8>>,
    path: usize,
    gen: usize,
    pos: usize,
    readers: Vec<Reader>,
    ops: Vec<Op>,
}
static mut W: Option<World> = None;

#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}

impl World {
    fn write(&mut self, n: usize) {
        let g = &self.gens[self.gen];
        let to = (self.pos + n).min(g.len());
        self.files[self.path].extend_from_slice(&g[self.pos..to]);
        self.pos = to;
    }
    fn next(&mut self) -> bool {
        if self.gen + 1 < self.gens.len() {
            self.gen += 1;
            self.pos = 0;
            return true;
        }
        false
    }
}

fn writer(op: &Op) {
    let w = w();
    match op.kind.as_str() {
        "append" => {
            count(C::FileGrew, 1);
            w.write(op.a.max(0) as usize)
        }
        "line" => {
            count(C::FileGrew, 1);
            let g = &w.gens[w.gen];
            let n = g[w.pos..].iter().position(|c| *c == b'\n').map_or(g.len(), |i| i + 1);
            w.write(n);
        }
        "rest" => w.write(usize::MAX / 2),
        "trunc" => {
            if w.next() {
                count(C::FileRewritten, 1);
                let p = w.path;
                w.files[p].clear();
            }
        }
        "replace" => {
            if w.next() {
                count(C::FileReplaced, 1);
                w.files.push(Vec::new());
                w.path = w.files.len() - 1;
                let n = w.gens[w.gen].len() * op.a.clamp(0, 1000) as usize / 1000;
                w.write(n);
            }
        }
        _ => {}
    }
}

fn load_it(t: usize, bytes: Vec<u8>, whole: bool, what: &str) {
    let w = w();
    // Part of one generation, or a mixture?
    let (mut pure, mut torn) = (whole, false);
    for g in w.gens.iter().filter(|g| !whole && g.starts_with(&bytes)) {
        pure = true;
        let mut ends = (0..g.len()).filter(|&i| g[i] == b'\n').map(|i| i + 1 - w.nl);
        torn |= !(bytes.is_empty() || ends.any(|e| (e..=e + w.nl).contains(&bytes.len())));
    }
    count(if pure { C::SawPrefix } else { C::SawMixture }, 1);
    let text = decode(bytes, w.how);
    sched::trace(rng::hash_bytes(30, text.as_bytes()));
    shared::doing(&format!("reader {t}: {what} of {:?}", text.chars().take(300).collect::<String>()));
    let kind = gen::kind(w.mtl);
    let b = buffer(t, &text);
    let text: &'static str = unsafe { std::str::from_utf8_unchecked(b) };
    let out = load(kind, text);
    sched::trace(rng::hash_bytes(31, out.text().as_bytes()));
    unwound(&out, &format!("reader {t}: {what} of {:?}", text.chars().take(300).collect::<String>()));
    let e = Expect {
        text: String::new(),
        kind,
        written: w.written.clone(),
        any: false,
        torn,
        skip_inert: pure,
    };
    judge(&e, text, &out);
}

fn read_on(r: &mut Reader, path: usize, files: &[Vec<u8>], n: usize) -> Option<Vec<u8>> {
    let f = *r.open.get_or_insert(path);
    let data = &files[f];
    let at = r.got.len();
    if at >= data.len() {
        r.open = None;
        return Some(std::mem::take(&mut r.got));
    }
    r.got.extend_from_slice(&data[at..(at + n).min(data.len())]);
    None
}

fn reader(t: usize, op: &Op) {
    let w = w();
    let r = &mut w.readers[t];
    match op.kind.as_str() {
        "read" => {
            let b = w.files[w.path].clone();
            load_it(t, b, false, "a load");
        }
        "chunk" => {
            if let Some(b) = read_on(r, w.path, &w.files, op.a.max(1) as usize) {
                load_it(t, b, false, "a load of what was read piece by piece");
            }
        }
        "finish" => loop {
            sched::yield_now();
            let w = self::w();
            if let Some(b) = read_on(&mut w.readers[t], w.path, &w.files, op.a.max(1) as usize) {
                load_it(t, b, false, "a load of what was read piece by piece");
                return;
            }
        },
        "delta" => {
            // What has come since the last time, in whole lines.
            let f = &w.files[w.path];
            if r.seen.0 != w.path || r.seen.1 > f.len() {
                r.seen = (w.path, 0);
            }
            let from = r.seen.1;
            let to = f.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1).max(from);
            r.seen.1 = to;
            if to > from {
                let b = f[from..to].to_vec();
                let g = &w.gens[w.gen];
                let whole = g.get(from..to) == Some(&b) && (from == 0 || g[from - 1] == b'\n');
                load_it(t, b, whole, "a load of what is new");
            }
        }
        _ => {}
    }
}

fn task(t: usize) {
    for i in 0..w().ops.len() {
        let op = &w().ops[i];
        if op.task == t {
            sched::yield_now();
            if t == 0 {
                writer(op);
            } else {
                reader(t, op);
            }
        }
    }
    if t == 0 {
        writer(&Op { task: 0, kind: "rest".into(), a: 0 });
    }
    sched::barrier();
    // Nobody writes any more: what is there is what comes out.
    if t > 0 {
        w().readers[t].open = None;
        w().readers[t].got.clear();
        reader(t, &Op { task: t, kind: "read".into(), a: 0 });
    }
}

pub fn run(p: &Plan) {
    let crlf = p.cfg("crlf", 0) != 0;
    let nl: &[u8] = if crlf { b"\r\n" } else { b"\n" };
    let mut gens: Vec<Vec<u8>> = vec![Vec::new()];
    let mut written = BTreeSet::new();
    for r in p.all("w") {
        let g = r.u(0, 7);
        while gens.len() <= g {
            gens.push(Vec::new());
        }
        gens[g].extend_from_slice(r.s(1).as_bytes());
        gens[g].extend_from_slice(nl);
        written.insert(r.s(1).to_string());
    }
    if gens.iter().any(|g| g.len() > 1 << 20) {
        return;
    }
    let threads = p.cfg("threads", 2).clamp(2, 8) as usize;
    let ops = p
        .all("op")
        .map(|r| Op { task: r.i(0).rem_euclid(threads as i64) as usize, kind: r.s(1).into(), a: r.i(2) })
        .collect();
    let segs = p.all("seg").map(|r| (r.i(0), r.i(1).clamp(0, 2) as u8, r.i(2).clamp(1, 1_000_000))).collect();
    unsafe {
        W = Some(World {
            mtl: p.cfg("mtl", 0) != 0,
            how: p.cfg("decode", 0),
            gens,
            nl: nl.len(),
            written,
            files: vec![Vec::new()],
            path: 0,
            gen: 0,
            pos: 0,
            readers: (0..threads).map(|_| Reader::default()).collect(),
            ops,
        });
    }
    alloc::init(p.cfg("garbage", 0x5A) as u8);
    log::set_max_level(log::LevelFilter::Error);
    env().seed = p.cfg("hash", 1) as u64;
    env().tick = p.cfg("tick", 0).unsigned_abs();
    env().back = p.cfg("back", 0) != 0;
    let stack = (p.cfg("stack", 256).clamp(64, 8192) as usize) << 10;
    sched::run(threads, stack, segs, false, None, &task);
}
