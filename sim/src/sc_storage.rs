//! Runs in which one application loads content which a simulated storage stack or a
//! set of simulated writers has produced: C01 to C05 and C13.
use crate::gen;
use crate::inter::env;
use crate::load::{canon_material, canon_model, load, Kind, Out};
use crate::plan::Plan;
use crate::refmodel;
use crate::shared::{self, count, C};
use crate::{alloc, rng, sched, sys};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// What a text must load as.
pub struct Expect {
    pub text: String,
    pub kind: Kind,
    pub written: BTreeSet<String>,
    /// Nothing but crashes and hangs matters (C01).
    pub any: bool,
    /// The last line is torn.
    pub torn: bool,
    /// Lines which start with no keyword must be skipped: they are no excuse to fail.
    pub skip_inert: bool,
}
static mut E: Option<Expect> = None;

/// Loaded after the damaged content, and must come out exactly.
const CONTROL_OBJ: &str = "mtllib c.mtl\nv 1 2 3\nv -1.5 2.25 1e2 0.5\nvt 0.5 0.25\nvn 0 0 1\ng one\nusemtl red\ns 3\nf 1/1/1 2/1/1 3//1\ng two words\nl 1/1 2/1\np 1 2\nlod 3\nbevel on\n";
const CONTROL_MTL: &str = "newmtl red\nKa 1 0 0\nKd spectral a.rfl 2\nd -halo 0.5\nillum 2\nmap_Kd -blendu off -o 1 2 3 wood.png\nnewmtl blue two\nNs 10.5\nbump -bm 2 b.png\nmap_aat on\n";

fn check_obj(text: &str, written: &BTreeSet<String>, out: &Out) -> Result<(), String> {
    let Out::Obj(m) = out else { return Err("no model".into()) };
    refmodel::obj(text, written).check(&canon_model(m))
}
fn check_mtl(text: &str, written: &BTreeSet<String>, out: &Out) -> Result<(), String> {
    let Out::Mtl(v) = out else { return Err("no materials".into()) };
    let v: Vec<_> = v.iter().map(canon_material).collect();
    refmodel::mtl(text, written).check(&v)
}
fn check(kind: Kind, text: &str, written: &BTreeSet<String>, out: &Out) -> Result<(), String> {
    match kind {
        Kind::Obj => check_obj(text, written, out),
        Kind::Mtl => check_mtl(text, written, out),
    }
}

fn short(s: &str) -> String {
    s.chars().take(1500).collect()
}

/// A place for the text which ends where a page ends, before one which cannot be
/// touched.
fn place(n: usize, text: &str) -> &'static str {
    const AT: usize = 0x1300_0000_0000;
    let room = (text.len() + 4095) & !4095;
    let at = AT + n * (64 << 20);
    unsafe {
        let p = sys::mmap(at as *mut u8, room.max(4096), 3, 0x2 | 0x20 | 0x100000, -1, 0);
        assert!(p as usize == at, "place");
        let d = at + room.max(4096) - text.len();
        std::ptr::copy_nonoverlapping(text.as_ptr(), d as *mut u8, text.len());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(d as *const u8, text.len()))
    }
}

pub fn unwound(out: &Out, what: &str) {
    match out {
        Out::Panic(m) => sched::fail("load-panicked", &format!("{what}: {m}")),
        Out::LogPanic | Out::Oom => sched::fail("load-exhausts-memory", what),
        _ => {}
    }
}

#[allow(static_mut_refs)]
fn task(_t: usize) {
    let e = unsafe { E.as_ref().unwrap() };
    let text = place(0, &e.text);
    shared::doing(&format!("the load of {:?}", short(text)));
    alloc::peak();
    let before = alloc::live();
    let out = load(e.kind, text);
    let used = alloc::peak() - before;
    if e.any && used > (1 << 20) + 2000 * text.len() as i64 {
        sched::fail("load-exhausts-memory", &format!("{used} bytes in use during the load of {} bytes: {:?}", text.len(), short(text)));
    }
    sched::trace(rng::hash_bytes(21, out.text().as_bytes()));
    unwound(&out, &format!("the load of {:?}", short(text)));
    if !e.any {
        judge(e, text, &out);
    }
    drop(out);
    let kinds = if e.kind == Kind::Obj { [Kind::Obj, Kind::Mtl] } else { [Kind::Mtl, Kind::Obj] };
    for (i, k) in kinds.into_iter().enumerate() {
        let t = place(i + 1, if k == Kind::Obj { CONTROL_OBJ } else { CONTROL_MTL });
        shared::doing("the load after it");
        let out = load(k, t);
        sched::trace(rng::hash_bytes(22, out.text().as_bytes()));
        unwound(&out, "the load after it");
        let w = t.lines().map(String::from).collect();
        let r = match &out {
            Out::Err(x) => Err(format!("failed: {x}")),
            o => check(k, t, &w, o),
        };
        if let Err(x) = r {
            sched::fail("later-load-wrong", &format!("the load of intact content after it: {x}"));
        }
    }
}

pub fn judge(e: &Expect, text: &str, out: &Out) {
    let (mut inert, known, clean, orphan) = match e.kind {
        Kind::Obj => {
            let x = refmodel::obj(text, &e.written);
            count(C::GroupReselect, x.reselected as u64);
            (x.inert, x.known, x.clean, false)
        }
        Kind::Mtl => {
            let x = refmodel::mtl(text, &e.written);
            (x.inert, x.known, x.clean, x.must_fail())
        }
    };
    count(C::StmtKinds, clean as u64);
    if e.skip_inert {
        inert = 0;
    }
    let bad = |class: &str, why: &str| -> ! {
        sched::fail(class, &format!("{why}; text {:?}", short(text)));
    };
    if let Out::Err(x) = out {
        if e.torn {
            count(C::TornErr, 1);
            return;
        }
        if inert + known > 0 {
            count(C::ErrJunk, 1);
            return;
        }
        if orphan || (e.kind == Kind::Mtl && clean == 0) {
            return;
        }
        bad("intact-content-rejected", &format!("every line is intact, but the load failed: {x}"));
    }
    // The load succeeded.
    if inert + known > 0 {
        count(C::OkJunk, 1);
    }
    let first = if orphan { Err("an attribute before any material is not an error".into()) } else { check(e.kind, text, &e.written, out) };
    let Err(why) = first else {
        if e.torn {
            count(C::TornEffect, 1);
        }
        return;
    };
    if e.torn {
        // Without the torn line.
        let cut = text.rfind(['\n', '\r']).map_or(0, |i| i + 1);
        let t = &text[..cut];
        let orphan = e.kind == Kind::Mtl && refmodel::mtl(t, &e.written).must_fail();
        if !orphan && check(e.kind, t, &e.written, out).is_ok() {
            count(C::TornNone, 1);
            return;
        }
    }
    bad("result-wrong", &why);
}

pub fn decode(bytes: Vec<u8>, how: i64) -> String {
    match String::from_utf8(bytes) {
        Ok(s) => s,
        Err(e) if how == 0 => String::from_utf8_lossy(e.as_bytes()).into_owned(),
        Err(e) => {
            let n = e.utf8_error().valid_up_to();
            let mut b = e.into_bytes();
            b.truncate(n);
            String::from_utf8(b).unwrap()
        }
    }
}

pub fn run(p: &Plan) {
    let kind = gen::kind(p.cfg("mtl", 0) != 0);
    let crlf = p.cfg("crlf", 0) != 0;
    let nl: &[u8] = if crlf { b"\r\n" } else { b"\n" };
    let mut torn = false;
    let times = p.cfg("times", 1).clamp(1, 100_000) as usize;
    if times > 1 {
        count(C::BigDoc, 1);
    }
    let written: BTreeSet<String>;
    let bytes = match p.prop.as_str() {
        "C02" | "C03" => {
            written = spread(p.all("w").map(|r| r.s(0)), times).collect();
            let (b, t) = cut(p, nl, times);
            torn = t;
            b
        }
        "C13" => {
            written = spread(p.all("w").map(|r| r.s(2)), times).collect();
            merge(p, nl, times)
        }
        _ => {
            written =
                spread(p.all("w").map(|r| r.s(0)), times).chain(p.all("old").map(|r| r.s(0).to_string())).collect();
            damage(p, nl, times)
        }
    };
    let mut text = decode(bytes, p.cfg("decode", 0));
    if text.len() > 8 << 20 {
        text.clear();
    }
    sched::trace(rng::hash_bytes(20, text.as_bytes()));
    unsafe {
        E = Some(Expect {
            text,
            kind,
            written,
            any: p.prop == "C01",
            torn,
            skip_inert: matches!(p.prop.as_str(), "C02" | "C03" | "C13"),
        });
    }
    alloc::init(p.cfg("garbage", 0x5A) as u8);
    log::set_max_level(log::LevelFilter::Error);
    env().seed = p.cfg("hash", 1) as u64;
    env().tick = p.cfg("tick", 0).unsigned_abs();
    env().back = p.cfg("back", 0) != 0;
    count(C::StackBound, 1);
    let stack = (p.cfg("stack", 256).clamp(64, 8192) as usize) << 10;
    sched::run(1, stack, Vec::new(), false, None, &task);
}

/// The lines, `times` times over; %N in them is the number of the repetition.
fn spread<'a>(lines: impl Iterator<Item = &'a str>, times: usize) -> impl Iterator<Item = String> {
    let lines: Vec<&str> = lines.collect();
    let size = lines.iter().map(|l| l.len() + 8).sum::<usize>();
    let times = if size * times > 6 << 20 { 1 } else { times };
    let mut out = Vec::new();
    for i in 0..times {
        let n = i.to_string();
        out.extend(lines.iter().map(|l| if times > 1 && l.contains("%N") { l.replace("%N", &n) } else { l.to_string() }));
    }
    out.into_iter()
}

fn join<'a>(lines: impl Iterator<Item = &'a str>, nl: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    for l in lines {
        b.extend_from_slice(l.as_bytes());
        b.extend_from_slice(nl);
    }
    b
}

// ------------------------------------------------- C01, C04, C05: a faulty disk

fn damage(p: &Plan, nl: &[u8], times: usize) -> Vec<u8> {
    let all: Vec<String> = spread(p.all("w").map(|r| r.s(0)), times).collect();
    let mut b = join(all.iter().map(|l| &l[..]), nl);
    let old = join(p.all("old").map(|r| r.s(0)), nl);
    for r in p.all("ev") {
        let n = b.len();
        let at = |i: usize| r.u(i, n);
        let to = |i: usize, l: usize| (at(i) + r.u(l, 1 << 20)).min(n);
        match r.s(0) {
            "flip" if n > 0 => {
                count(C::BitFlip, 1);
                let i = at(1).min(n - 1);
                b[i] ^= 1 << r.u(2, 7);
            }
            "zero" => {
                count(C::ZeroRange, 1);
                b[at(1)..to(1, 2)].fill(0);
            }
            "stale" => {
                count(C::StaleRange, 1);
                for i in at(1)..to(1, 2) {
                    b[i] = old.get(i).copied().unwrap_or(0);
                }
            }
            "trunc" => {
                count(C::Truncate, 1);
                b.truncate(at(1));
            }
            "dup" => {
                count(C::DupRange, 1);
                let x = b[at(1)..to(1, 2)].to_vec();
                let i = to(1, 2);
                b.splice(i..i, x);
            }
            "drop" => {
                count(C::DropRange, 1);
                b.drain(at(1)..to(1, 2));
            }
            "swap" => {
                count(C::SwapRange, 1);
                let l = r.u(3, 1 << 20);
                let (x, y) = (at(1).min(at(2)), at(1).max(at(2)));
                let l = l.min(y - x).min(n - y);
                for i in 0..l {
                    b.swap(x + i, y + i);
                }
            }
            "mix" => {
                // The new version up to here, the old one after it.
                count(C::TornOverwrite, 1);
                count(C::MixedVersions, 1);
                let i = at(1);
                b.truncate(i);
                b.extend_from_slice(old.get(i..).unwrap_or(&[]));
            }
            "insert" => {
                count(C::InsertBytes, 1);
                let i = at(1);
                b.splice(i..i, r.s(2).bytes());
            }
            "raw" => {
                count(C::InsertBytes, 1);
                let i = at(1);
                b.splice(i..i, r.s(2).chars().map(|c| c as u32 as u8));
            }
            "fill" => {
                // A stretch of one byte, as of space which was reserved or erased.
                count(C::InsertBytes, 1);
                let i = at(1);
                let x = vec![r.i(3) as u8; r.u(2, 1 << 16)];
                b.splice(i..i, x);
            }
            "join" => {
                let k = r.u(1, 1 << 20);
                if let Some(i) = (0..n).filter(|&i| b[i] == b'\n').nth(k) {
                    count(C::LineLoss, 1);
                    let from = if i > 0 && b[i - 1] == b'\r' { i - 1 } else { i };
                    b.drain(from..=i);
                }
            }
            "line" => {
                count(C::UnknownLine, 1);
                let k = r.u(1, 1 << 20);
                let i = match k {
                    0 => 0,
                    k => (0..n).filter(|&i| b[i] == b'\n').nth(k - 1).map_or(n, |i| i + 1),
                };
                let mut x = r.s(2).as_bytes().to_vec();
                x.extend_from_slice(nl);
                b.splice(i..i, x);
            }
            _ => {}
        }
    }
    b
}

// ------------------------------------------------- C02, C03: a writer which is cut off

/// What survives, and whether its last line is torn.
fn cut(p: &Plan, nl: &[u8], times: usize) -> (Vec<u8>, bool) {
    let mut file: Vec<u8> = Vec::new();
    let mut buf: Vec<u8> = Vec::new();
    let mut durable = 0;
    count(C::Generations, 1);
    if times > 1 {
        let all: Vec<String> = spread(p.all("w").map(|r| r.s(0)), times).collect();
        file = join(all.iter().map(|l| &l[..]), nl);
    }
    for r in &p.recs {
        match r.k.as_str() {
            _ if times > 1 => {}
            "w" => {
                buf.extend_from_slice(r.s(0).as_bytes());
                buf.extend_from_slice(nl);
            }
            "flush" => {
                count(C::PartialFlush, 1);
                let n = buf.len() * r.u(0, 1000) / 1000;
                file.extend(buf.drain(..n));
            }
            "sync" => {
                file.append(&mut buf);
                count(C::AckedLines, file[durable..].iter().filter(|c| **c == b'\n').count() as u64);
                durable = file.len();
            }
            "crash" => {
                count(C::Crash, 1);
                count(C::Generations, 1);
                let keep = durable + (file.len() - durable) * r.u(0, 1000) / 1000;
                if keep < file.len() || !buf.is_empty() {
                    count(C::TailLoss, 1);
                }
                file.truncate(keep);
                buf.clear();
                // The next generation drops a torn line and goes on.
                let n = file.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
                file.truncate(n);
                durable = n;
            }
            _ => {}
        }
    }
    file.append(&mut buf);
    // Ends of the lines, without their line ends.
    let mut ends = vec![0];
    let mut i = 0;
    while let Some(n) = file[i..].iter().position(|c| *c == b'\n') {
        ends.push(i + n + 1 - nl.len());
        i += n + 1;
    }
    let mut at = file.len();
    for r in &p.recs {
        match r.k.as_str() {
            "cutline" => {
                let e = ends[r.u(0, 1 << 20) % ends.len()] as i64;
                at = (e + r.i(1).clamp(-1000, 1000)).clamp(0, file.len() as i64) as usize;
            }
            "cut" => at = r.u(0, 1 << 30) % (file.len() + 1),
            _ => {}
        }
    }
    at = at.max(durable);
    count(C::Crash, 1);
    if at < file.len() {
        count(C::TailLoss, 1);
    }
    if at == 0 {
        count(C::EmptyPrefix, 1);
    }
    let whole = at == 0 || ends[1..].iter().any(|e| (*e..=*e + nl.len()).contains(&at));
    if whole {
        count(C::CutAtBoundary, 1);
    }
    file.truncate(at);
    (file, !whole)
}

// ------------------------------------------------- C13: several writers

fn merge(p: &Plan, nl: &[u8], times: usize) -> Vec<u8> {
    let mut q: BTreeMap<i64, VecDeque<(i64, Vec<&str>)>> = BTreeMap::new();
    for r in p.all("w") {
        let w = q.entry(r.i(0)).or_default();
        match w.back_mut() {
            Some(b) if b.0 == r.i(1) => b.1.push(r.s(2)),
            _ => w.push_back((r.i(1), vec![r.s(2)])),
        }
    }
    count(C::WriterBlocks, q.values().map(|w| w.len() as u64).sum());
    let mut out: Vec<&str> = Vec::new();
    let mut late: Vec<Vec<&str>> = Vec::new();
    let mut last = -1;
    let mut turn = |w: i64| {
        if last != w {
            count(C::WriterSwitch, 1);
        }
        last = w;
    };
    for r in p.all("turn") {
        let w = r.i(0);
        let Some(b) = q.get_mut(&w).and_then(|x| x.pop_front()) else { continue };
        turn(w);
        out.extend(&b.1);
        match r.i(1) {
            1 => {
                count(C::WriterRetry, 1);
                out.extend(&b.1);
            }
            2 => {
                count(C::WriterCrash, 1);
                q.remove(&w);
            }
            3 => {
                count(C::WriterRetry, 1);
                late.push(b.1);
            }
            _ => {}
        }
    }
    while q.values().any(|w| !w.is_empty()) {
        for (w, x) in q.iter_mut() {
            if let Some(b) = x.pop_front() {
                turn(*w);
                out.extend(&b.1);
            }
        }
    }
    for l in &late {
        out.extend(l);
    }
    let b = join(out.into_iter(), nl);
    if b.len() * times > 6 << 20 {
        b
    } else {
        // The writers go on in the same way.
        if !p.all("w").any(|r| r.s(2).contains("%N")) {
            return b.repeat(times);
        }
        let b = String::from_utf8(b).unwrap();
        (0..times).map(|i| b.replace("%N", &i.to_string())).collect::<String>().into_bytes()
    }
}
