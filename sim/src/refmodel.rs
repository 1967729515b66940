//! The reference model: a strict reading of the documented OBJ and MTL statements,
//! written without looking at how the library parses. It classifies every line of a
//! (possibly damaged) text and builds what a load may return: exact where lines are
//! whole, open where a damaged line could legitimately be read in several ways.
use crate::load::{face_text, fl, line_text, ofl, point_text, rgb, CMap, CModel, MAT_FIELDS};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const OBJ_KW: [&str; 20] = [
    "v", "vn", "vt", "vp", "f", "l", "p", "o", "g", "s", "mtllib", "usemtl", "bevel", "c_interp", "d_interp", "lod",
    "shadow_obj", "trace_obj", "maplib", "usemap",
];
const MTL_KW: [&str; 22] = [
    "newmtl", "ka", "kd", "ks", "ke", "ns", "d", "tr", "tf", "sharpness", "ni", "illum", "map_ka", "map_kd", "map_ks",
    "map_ns", "map_d", "map_disp", "disp", "decal", "bump", "refl",
];
// and "map_aat", see below

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// Nothing: blank or a comment.
    Blank,
    /// A whole statement, whose effect is known.
    Clean,
    /// The first word is no keyword: no effect, or an error.
    Inert,
    /// Starts with a keyword but is not a well-formed statement.
    Known,
}

#[derive(Clone, Debug, PartialEq)]
enum Pat {
    Is(String),
    /// A face whose smoothing group is not known.
    AnyS(String),
    /// One thing, or nothing.
    Maybe,
    Wild,
}

/// The positions a pattern may have reached: (these, everything from here on).
struct Reach(Vec<usize>, usize);

impl Reach {
    fn start() -> Self {
        Reach(vec![0], usize::MAX)
    }
    /// Any number of elements.
    fn any(&mut self) {
        let least = self.0.iter().copied().min().unwrap_or(usize::MAX).min(self.1);
        *self = Reach(Vec::new(), least);
    }
    /// At most one element.
    fn maybe(&mut self, len: usize) {
        let mut v: Vec<usize> = self.0.iter().flat_map(|&j| [j, j + 1]).filter(|&j| j <= len && j < self.1).collect();
        v.sort_unstable();
        v.dedup();
        self.0 = v;
    }
    /// One element which `ok` accepts.
    fn one(&mut self, len: usize, mut ok: impl FnMut(usize) -> bool) {
        let from = self.0.iter().copied().chain(self.1.min(len)..len);
        self.0 = from.filter(|&j| j < len && ok(j)).map(|j| j + 1).collect();
        self.1 = usize::MAX;
    }
    fn nowhere(&self) -> bool {
        self.0.is_empty() && self.1 == usize::MAX
    }
    fn at(&self, len: usize) -> bool {
        self.1 <= len || self.0.contains(&len)
    }
}

/// Whether `got` matches the pattern.
fn glob(p: &[Pat], got: &[String]) -> bool {
    let mut reach = Reach::start();
    for x in p {
        match x {
            Pat::Wild => reach.any(),
            Pat::Maybe => reach.maybe(got.len()),
            Pat::Is(s) => reach.one(got.len(), |j| *s == got[j]),
            Pat::AnyS(s) => reach.one(got.len(), |j| *s == no_smoothing(&got[j])),
        }
        if reach.nowhere() {
            return false;
        }
    }
    reach.at(got.len())
}

fn no_smoothing(f: &str) -> &str {
    f.find(' ').map_or("", |i| &f[i..])
}

fn show(p: &[Pat]) -> String {
    p.iter()
        .map(|x| match x {
            Pat::Is(s) => format!("[{s}]"),
            Pat::AnyS(s) => format!("[s?{s}]"),
            Pat::Maybe => "?".into(),
            Pat::Wild => "*".into(),
        })
        .collect()
}

fn words(l: &str) -> Vec<&str> {
    l.split([' ', '\t']).filter(|w| !w.is_empty()).collect()
}

/// A number in plain decimal notation.
pub fn num(w: &str) -> Option<f32> {
    let t = w.strip_prefix(['+', '-']).unwrap_or(w);
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    if let Some(e) = e {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        if e.is_empty() || !e.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
    }
    let digits = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    let ok = match m.find('.') {
        Some(i) => digits(&m[..i]) && digits(&m[i + 1..]) && m.len() > 1,
        None => !m.is_empty() && digits(m),
    };
    let v: f32 = ok.then(|| w.parse().ok())??;
    v.is_finite().then_some(v)
}

pub fn int(w: &str) -> Option<i32> {
    let t = w.strip_prefix(['+', '-']).unwrap_or(w);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    w.parse().ok()
}

fn onoff(w: &str) -> Option<bool> {
    if w.eq_ignore_ascii_case("on") {
        Some(true)
    } else if w.eq_ignore_ascii_case("off") {
        Some(false)
    } else {
        None
    }
}

enum OStmt {
    V(String),
    Vn(String),
    Vt(String),
    Nothing,
    Face(Vec<(i32, Option<i32>, Option<i32>)>),
    Line(Vec<(i32, Option<i32>)>),
    Point(Vec<i32>),
    Group(String),
    /// Group setting: index into CModel.groups' array.
    Set(usize, String),
    Smooth(i32),
    MtlLib(String),
    MapLib(String),
    Shadow(String),
    Trace(String),
}

/// The words of a statement without its comment.
fn args<'a>(w: &[&'a str]) -> Vec<&'a str> {
    w.iter().take_while(|x| !x.starts_with('#')).copied().collect()
}

/// The rest of the line after its first word.
fn rest(l: &str) -> &str {
    l.trim_matches([' ', '\t']).split_once([' ', '\t']).map_or("", |x| x.1.trim_matches([' ', '\t']))
}

fn name(l: &str, written: bool) -> Option<String> {
    let n = rest(l);
    if n.is_empty() || n.starts_with('#') || (!written && n.contains([' ', '\t', '#'])) {
        return None;
    }
    Some(n.to_string())
}

fn obj_stmt(l: &str, kw: &str, written: bool) -> Option<OStmt> {
    let w = words(l);
    let a = args(&w[1..]);
    let nums = || a.iter().map(|x| num(x)).collect::<Option<Vec<f32>>>();
    // An on/off value runs to the end of the line.
    let exact = || (w.len() == 2 && !l.ends_with([' ', '\t'])).then(|| onoff(w[1]))?;
    Some(match kw {
        "v" => {
            let n = nums().filter(|n| n.len() == 3 || n.len() == 4)?;
            OStmt::V(format!("{} {} {} {}", fl(n[0]), fl(n[1]), fl(n[2]), ofl(n.get(3).copied())))
        }
        "vn" => {
            let n = nums().filter(|n| n.len() == 3)?;
            OStmt::Vn(format!("{} {} {}", fl(n[0]), fl(n[1]), fl(n[2])))
        }
        "vt" => {
            let n = nums().filter(|n| (1..=3).contains(&n.len()))?;
            OStmt::Vt(format!("{} {} {}", fl(n[0]), ofl(n.get(1).copied()), ofl(n.get(2).copied())))
        }
        "vp" => {
            nums().filter(|n| (1..=3).contains(&n.len()))?;
            OStmt::Nothing
        }
        "f" => {
            let e = a
                .iter()
                .map(|x| {
                    let p: Vec<&str> = x.split('/').collect();
                    Some(match p.len() {
                        1 => (int(p[0])?, None, None),
                        2 => (int(p[0])?, Some(int(p[1])?), None),
                        3 if p[1].is_empty() => (int(p[0])?, None, Some(int(p[2])?)),
                        3 => (int(p[0])?, Some(int(p[1])?), Some(int(p[2])?)),
                        _ => return None,
                    })
                })
                .collect::<Option<Vec<_>>>()?;
            (!e.is_empty()).then_some(OStmt::Face(e))?
        }
        "l" => {
            let e = a
                .iter()
                .map(|x| {
                    let p: Vec<&str> = x.split('/').collect();
                    Some(match p.len() {
                        1 => (int(p[0])?, None),
                        2 => (int(p[0])?, Some(int(p[1])?)),
                        _ => return None,
                    })
                })
                .collect::<Option<Vec<_>>>()?;
            (!e.is_empty()).then_some(OStmt::Line(e))?
        }
        "p" => {
            let e = a.iter().map(|x| int(x)).collect::<Option<Vec<_>>>()?;
            (!e.is_empty()).then_some(OStmt::Point(e))?
        }
        "o" => {
            name(l, written)?;
            OStmt::Nothing
        }
        "g" => OStmt::Group(name(l, written)?),
        "usemtl" => OStmt::Set(0, name(l, written)?),
        "usemap" => OStmt::Set(5, format!("{:?}", name(l, written)?)),
        "mtllib" => OStmt::MtlLib(name(l, written)?),
        "maplib" => OStmt::MapLib(name(l, written)?),
        "shadow_obj" => OStmt::Shadow(name(l, written)?),
        "trace_obj" => OStmt::Trace(name(l, written)?),
        "bevel" => OStmt::Set(1, exact()?.to_string()),
        "c_interp" => OStmt::Set(2, exact()?.to_string()),
        "d_interp" => OStmt::Set(3, exact()?.to_string()),
        "lod" => OStmt::Set(4, (a.len() == 1).then(|| int(a[0]))?.filter(|v| (0..=100).contains(v))?.to_string()),
        "s" => match a.len() {
            1 if int(a[0]).is_some_and(|v| v >= 0) => OStmt::Smooth(int(a[0])?),
            _ => OStmt::Smooth(exact()? as i32),
        },
        _ => return None,
    })
}

#[derive(Default, Clone)]
struct GroupExp {
    /// faces, lines, points
    lists: [Vec<Pat>; 3],
    /// None: could be anything.
    set: [Option<String>; 6],
}

pub struct ObjExp {
    v: Vec<Pat>,
    vn: Vec<Pat>,
    vt: Vec<Pat>,
    mtllibs: Vec<Pat>,
    maplibs: Vec<Pat>,
    shadow: Option<Option<String>>,
    trace: Option<Option<String>>,
    groups: BTreeMap<String, GroupExp>,
    /// A damaged line may have made groups which are not in `groups`.
    more_groups: bool,
    /// Lists of groups made from here on start open.
    open: [bool; 3],
    /// Elements whose group is unknown: (list, text without smoothing).
    floating: Vec<(usize, String)>,
    pub inert: usize,
    pub known: usize,
    pub clean: usize,
    /// A group was selected which had been selected before.
    pub reselected: usize,
}

impl ObjExp {
    fn group(&mut self, g: &str) -> &mut GroupExp {
        let open = self.open;
        let more = self.more_groups;
        self.groups.entry(g.to_string()).or_insert_with(|| {
            let mut e = GroupExp::default();
            for k in 0..3 {
                if open[k] {
                    e.lists[k].push(Pat::Wild);
                }
            }
            if !more {
                e.set = ["", "false", "false", "false", "0", "-"].map(|s| Some(s.to_string()));
            }
            e
        })
    }
    fn open_lists(&mut self, k: usize) {
        for g in self.groups.values_mut() {
            if g.lists[k].last() != Some(&Pat::Wild) {
                g.lists[k].push(Pat::Wild);
            }
        }
        self.open[k] = true;
    }
}

fn keyword<'a>(l: &str, kws: &[&'a str]) -> Option<&'a str> {
    let w = words(l);
    let w = w.first()?;
    kws.iter().find(|k| k.eq_ignore_ascii_case(w)).copied()
}

fn lines(text: &str) -> Vec<&str> {
    text.split(['\n', '\r']).collect()
}

/// Everything numeric syntax is made of.
fn numeric_only(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit() || b"+-./eE \t".contains(&b))
}

/// What loading `text` must give; `written` holds the lines a program wrote.
pub fn obj(text: &str, written: &BTreeSet<String>) -> ObjExp {
    let mut e = ObjExp {
        v: vec![],
        vn: vec![],
        vt: vec![],
        mtllibs: vec![],
        maplibs: vec![],
        shadow: Some(None),
        trace: Some(None),
        groups: BTreeMap::new(),
        more_groups: false,
        open: [false; 3],
        floating: vec![],
        inert: 0,
        known: 0,
        clean: 0,
        reselected: 0,
    };
    e.group("default");
    let mut cur: Option<String> = Some("default".into());
    let mut smooth: Option<i32> = Some(0);
    for l in lines(text) {
        let w = words(l);
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        let Some(kw) = keyword(l, &OBJ_KW) else {
            e.inert += 1;
            continue;
        };
        if let Some(st) = obj_stmt(l, kw, written.contains(l)) {
            e.clean += 1;
            match st {
                OStmt::V(t) => e.v.push(Pat::Is(t)),
                OStmt::Vn(t) => e.vn.push(Pat::Is(t)),
                OStmt::Vt(t) => e.vt.push(Pat::Is(t)),
                OStmt::Nothing => {}
                OStmt::Face(x) => {
                    let (p, bare) = match smooth {
                        Some(s) => {
                            let t = face_text(&x, &s.to_string());
                            (Pat::Is(t.clone()), no_smoothing(&t).to_string())
                        }
                        None => {
                            let t = face_text(&x, "?");
                            let b = no_smoothing(&t).to_string();
                            (Pat::AnyS(b.clone()), b)
                        }
                    };
                    match &cur {
                        Some(g) => e.group(&g.clone()).lists[0].push(p),
                        None => {
                            e.floating.push((0, bare));
                            e.open_lists(0);
                        }
                    }
                }
                OStmt::Line(x) => match &cur {
                    Some(g) => e.group(&g.clone()).lists[1].push(Pat::Is(line_text(&x))),
                    None => {
                        e.floating.push((1, line_text(&x)));
                        e.open_lists(1);
                    }
                },
                OStmt::Point(x) => match &cur {
                    Some(g) => e.group(&g.clone()).lists[2].push(Pat::Is(point_text(&x))),
                    None => {
                        e.floating.push((2, point_text(&x)));
                        e.open_lists(2);
                    }
                },
                OStmt::Group(g) => {
                    e.reselected += e.groups.contains_key(&g) as usize;
                    e.group(&g);
                    cur = Some(g);
                }
                OStmt::Set(i, v) => match &cur {
                    Some(g) => e.group(&g.clone()).set[i] = Some(v),
                    None => e.groups.values_mut().for_each(|g| g.set[i] = None),
                },
                OStmt::Smooth(s) => smooth = Some(s),
                OStmt::MtlLib(n) => e.mtllibs.push(Pat::Is(n)),
                OStmt::MapLib(n) => e.maplibs.push(Pat::Is(n)),
                OStmt::Shadow(n) => e.shadow = Some(Some(n)),
                OStmt::Trace(n) => e.trace = Some(Some(n)),
            }
            continue;
        }
        // A damaged statement.
        e.known += 1;
        let r = rest(l);
        let body = r.split('#').next().unwrap_or("");
        let quiet = numeric_only(body);
        let has_kw = || words(body).iter().any(|x| OBJ_KW.iter().any(|k| k.eq_ignore_ascii_case(x)));
        match kw {
            "v" if quiet => e.v.push(Pat::Maybe),
            "vn" if quiet => e.vn.push(Pat::Maybe),
            "vt" if quiet => e.vt.push(Pat::Maybe),
            "vp" if quiet => {}
            "f" | "l" | "p" if quiet => {
                let k = "flp".find(kw).unwrap();
                match &cur {
                    Some(g) => e.group(&g.clone()).lists[k].push(Pat::Maybe),
                    None => e.open_lists(k),
                }
            }
            "o" => {}
            "mtllib" => e.mtllibs.push(Pat::Wild),
            "maplib" => e.maplibs.push(Pat::Wild),
            "shadow_obj" => e.shadow = None,
            "trace_obj" => e.trace = None,
            "s" if quiet || !(has_kw() || r.starts_with(|c: char| c.is_ascii_digit() || "+-./".contains(c))) => {
                smooth = None
            }
            "usemtl" | "usemap" => {
                let i = if kw == "usemtl" { 0 } else { 5 };
                match &cur {
                    Some(g) => e.group(&g.clone()).set[i] = None,
                    None => e.groups.values_mut().for_each(|g| g.set[i] = None),
                }
            }
            "bevel" | "c_interp" | "d_interp" | "lod"
                if quiet || !(has_kw() || r.starts_with(|c: char| c.is_ascii_digit() || "+-./".contains(c))) =>
            {
                let i = ["bevel", "c_interp", "d_interp", "lod"].iter().position(|x| *x == kw).unwrap() + 1;
                match &cur {
                    Some(g) => e.group(&g.clone()).set[i] = None,
                    None => e.groups.values_mut().for_each(|g| g.set[i] = None),
                }
            }
            "g" => {
                e.more_groups = true;
                cur = None;
                (0..3).for_each(|k| e.open_lists(k));
            }
            _ => {
                for l in [&mut e.v, &mut e.vn, &mut e.vt, &mut e.mtllibs, &mut e.maplibs] {
                    l.push(Pat::Wild);
                }
                (0..3).for_each(|k| e.open_lists(k));
                e.shadow = None;
                e.trace = None;
                e.groups.values_mut().for_each(|g| g.set = Default::default());
                e.more_groups = true;
                cur = None;
                smooth = None;
            }
        }
    }
    e
}

impl ObjExp {
    pub fn check(&self, m: &CModel) -> Result<(), String> {
        let list = |n: &str, p: &[Pat], g: &[String]| {
            if glob(p, g) {
                Ok(())
            } else {
                Err(format!("{n}: expected {} found {g:?}", show(p)))
            }
        };
        list("vertices", &self.v, &m.vertices)?;
        list("normals", &self.vn, &m.normals)?;
        list("texture coordinates", &self.vt, &m.textures)?;
        list("material libraries", &self.mtllibs, &m.mtllibs)?;
        list("texture libraries", &self.maplibs, &m.maplibs)?;
        for (n, w, g) in [("shadow object", &self.shadow, &m.shadow), ("trace object", &self.trace, &m.trace)] {
            if w.as_ref().is_some_and(|w| w != g) {
                return Err(format!("{n}: expected {w:?} found {g:?}"));
            }
        }
        let none = Vec::new();
        for (k, (n, got)) in [("faces", &m.faces), ("lines", &m.lines), ("points", &m.points)].into_iter().enumerate() {
            for (g, e) in &self.groups {
                list(&format!("{n} of group {g:?}"), &e.lists[k], got.get(g).unwrap_or(&none))?;
            }
            if let Some(g) = got.keys().find(|g| !self.groups.contains_key(*g)).filter(|_| !self.more_groups) {
                return Err(format!("{n}: nothing selects group {g:?}"));
            }
            if self.floating.iter().all(|f| f.0 != k) {
                continue;
            }
            // How often each element must be there at least, wherever.
            let bare = |s: &'_ str| if k == 0 { no_smoothing(s).to_string() } else { s.to_string() };
            let mut need: HashMap<String, usize> = HashMap::new();
            for f in self.floating.iter().filter(|f| f.0 == k) {
                *need.entry(f.1.clone()).or_default() += 1;
            }
            for p in self.groups.values().flat_map(|g| &g.lists[k]) {
                let x = match p {
                    Pat::Is(s) => bare(s),
                    Pat::AnyS(s) => s.clone(),
                    _ => continue,
                };
                if let Some(n) = need.get_mut(&x) {
                    *n += 1;
                }
            }
            let mut have: HashMap<String, usize> = HashMap::new();
            for x in got.values().flatten() {
                *have.entry(bare(x)).or_default() += 1;
            }
            for f in self.floating.iter().filter(|f| f.0 == k) {
                let (n, h) = (need[&f.1], have.get(&f.1).copied().unwrap_or(0));
                if h < n {
                    return Err(format!("{n} of{} expected in the {name}, {h} found", f.1, name = ["faces", "lines", "points"][k]));
                }
            }
        }
        for (g, e) in &self.groups {
            let Some(got) = m.groups.get(g) else {
                return Err(format!("group {g:?} is missing"));
            };
            for i in 0..6 {
                if e.set[i].as_ref().is_some_and(|w| *w != got[i]) {
                    let n = ["material", "bevel", "c_interp", "d_interp", "lod", "texture map"][i];
                    return Err(format!("{n} of group {g:?}: expected {:?} found {:?}", e.set[i], got[i]));
                }
            }
        }
        if let Some(g) = m.groups.keys().find(|g| !self.groups.contains_key(*g)).filter(|_| !self.more_groups) {
            return Err(format!("nothing selects group {g:?}"));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- MTL

fn is_mtl_word(w: &str) -> bool {
    const MORE: [&str; 19] = [
        "map_aat", "spectral", "xyz", "-halo", "-type", "-texres", "-blendu", "-blendv", "-boost", "-clamp",
        "-imfchan", "-bm", "-cc", "-mm", "-o", "-s", "-t", "on", "off",
    ];
    MTL_KW.iter().chain(&MORE).any(|k| k.eq_ignore_ascii_case(w))
}

fn file(w: &str) -> Option<String> {
    let c = w.chars().next()?;
    ((c.is_alphabetic() || c == '_') && !w.contains('#') && !is_mtl_word(w)).then(|| w.to_string())
}

fn color_args(a: &[&str]) -> Option<String> {
    let first = a.first()?.to_ascii_lowercase();
    Some(match first.as_str() {
        "spectral" => {
            let f = file(a.get(1)?)?;
            let v = match a.len() {
                2 => 1.0,
                3 => num(a[2])?,
                _ => return None,
            };
            format!("spectral({f:?} {})", fl(v))
        }
        "xyz" => {
            let n = a[1..].iter().map(|x| num(x)).collect::<Option<Vec<_>>>()?;
            match n.len() {
                1 => rgb("xyz", n[0], n[0], n[0]),
                3 => rgb("xyz", n[0], n[1], n[2]),
                _ => return None,
            }
        }
        _ => {
            let n = a.iter().map(|x| num(x)).collect::<Option<Vec<_>>>()?;
            (n.len() == 3).then(|| rgb("rgb", n[0], n[1], n[2]))?
        }
    })
}

fn map_args(kw: &str, a: &[&str]) -> Option<String> {
    let cc = matches!(kw, "map_ka" | "map_kd" | "map_ks" | "refl");
    let mut m = CMap::default();
    if kw == "refl" {
        m.ty = Some(String::new());
    }
    let mut seen = BTreeSet::new();
    let mut i = 0;
    while i < a.len() {
        let o = a[i].to_ascii_lowercase();
        if !o.starts_with('-') {
            break;
        }
        if !seen.insert(o.clone()) {
            return None;
        }
        i += 1;
        let mut numbers = |lo: usize, hi: usize| {
            let mut v = Vec::new();
            while v.len() < hi && i < a.len() {
                let Some(x) = num(a[i]) else { break };
                v.push(Some(x));
                i += 1;
            }
            (v.len() >= lo).then_some(v)
        };
        match o.as_str() {
            "-o" | "-s" | "-t" => {
                let mut v = numbers(1, 3)?;
                v.resize(3, None);
                m.num.insert(["o", "s", "t"][["-o", "-s", "-t"].iter().position(|x| *x == o)?], v);
            }
            "-mm" => {
                let v = numbers(2, 2)?;
                m.num.insert("mm", v);
            }
            "-bm" if kw == "bump" => {
                let v = numbers(1, 1)?;
                m.num.insert("bm", v);
            }
            "-boost" => {
                numbers(1, 1)?;
            }
            _ => {
                let v = a.get(i)?;
                i += 1;
                match o.as_str() {
                    "-texres" => m.res = Some(int(v)?),
                    "-blendu" => drop(m.on.insert("blendu", onoff(v)?)),
                    "-blendv" => drop(m.on.insert("blendv", onoff(v)?)),
                    "-clamp" => drop(m.on.insert("clamp", onoff(v)?)),
                    "-cc" if cc => drop(m.on.insert("cc", onoff(v)?)),
                    "-imfchan" if !cc => {
                        m.chan = Some(["r", "g", "b", "m", "l", "z"].contains(v).then(|| v.to_string())?)
                    }
                    "-type" if kw == "refl" => {
                        let known = [
                            "sphere", "cube_top", "cube_bottom", "cube_front", "cube_back", "cube_left", "cube_right",
                        ];
                        m.ty = Some(known.contains(v).then(|| v.to_string())?)
                    }
                    _ => return None,
                }
            }
        }
    }
    if i + 1 != a.len() {
        return None;
    }
    m.file = file(a[i])?;
    Some(m.text())
}

/// A well-formed statement: the field it sets and the value. newmtl is the name.
fn mtl_stmt(l: &str, kw: &str, written: bool) -> Option<(&'static str, String)> {
    let w = words(l);
    let a = args(&w[1..]);
    let number = || (a.len() == 1).then(|| num(a[0]))?.map(fl);
    // White space other than blanks does not end a word which is no number.
    let tabs = l.contains('\t') && a.iter().any(|x| num(x).is_none());
    if kw == "newmtl" {
        return Some(("name", name(l, written)?));
    }
    if tabs {
        return None;
    }
    let f = |n: &str| MAT_FIELDS.iter().find(|f| **f == n).copied();
    let fields = [
        ("ka", "ambient"), ("kd", "diffuse"), ("ks", "specular"), ("ke", "emissive"), ("tf", "transmission"),
        ("ns", "exponent"), ("tr", "transparancy"), ("sharpness", "sharpness"), ("ni", "refraction"),
        ("d", "disolve"), ("illum", "illum"), ("map_aat", "aat"), ("map_disp", "disp"),
    ];
    let field = fields.iter().find(|x| x.0 == kw).map_or_else(|| f(kw), |x| f(x.1))?;
    let v = match kw {
        "ka" | "kd" | "ks" | "ke" | "tf" => color_args(&a)?,
        "ns" | "tr" | "sharpness" | "ni" => number()?,
        "d" => match a.len() {
            1 => format!("alpha {}", number()?),
            2 if a[0].eq_ignore_ascii_case("-halo") => format!("halo {}", fl(num(a[1])?)),
            _ => return None,
        },
        "illum" => (a.len() == 1).then(|| int(a[0]))?.filter(|v| (0..=10).contains(v))?.to_string(),
        "map_aat" => (a.len() == 1).then(|| onoff(a[0]))??.to_string(),
        _ => map_args(kw, &a)?,
    };
    Some((field, v))
}

enum MItem {
    /// A material: None for a field which could be anything.
    Mat(BTreeMap<&'static str, Option<String>>),
    Wild,
}

pub struct MtlExp {
    items: Vec<MItem>,
    pub inert: usize,
    pub known: usize,
    pub clean: usize,
    /// An attribute comes before any material.
    pub orphan: bool,
}

pub type CMaterial = Vec<(&'static str, String)>;

fn fresh(name: String) -> BTreeMap<&'static str, Option<String>> {
    MAT_FIELDS.iter().map(|f| (*f, Some(if *f == "name" { name.clone() } else { "-".into() }))).collect()
}

pub fn mtl(text: &str, written: &BTreeSet<String>) -> MtlExp {
    enum At {
        None,
        Mat,
        Unknown,
    }
    let mut kws = MTL_KW.to_vec();
    kws.push("map_aat");
    let mut e = MtlExp { items: vec![], inert: 0, known: 0, clean: 0, orphan: false };
    let mut at = At::None;
    for l in lines(text) {
        let w = words(l);
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        let Some(kw) = keyword(l, &kws) else {
            // A word which belongs in the middle of a statement may be rejected.
            if is_mtl_word(w[0]) {
                e.known += 1;
            } else {
                e.inert += 1;
            }
            continue;
        };
        fn last(items: &mut [MItem]) -> Option<&mut BTreeMap<&'static str, Option<String>>> {
            items.iter_mut().rev().find_map(|i| match i {
                MItem::Mat(m) => Some(m),
                MItem::Wild => None,
            })
        }
        if let Some((f, v)) = mtl_stmt(l, kw, written.contains(l)) {
            e.clean += 1;
            if f == "name" {
                e.items.push(MItem::Mat(fresh(v)));
                at = At::Mat;
                continue;
            }
            match at {
                At::None => e.orphan = true,
                At::Mat => drop(last(&mut e.items).unwrap().insert(f, Some(v))),
                At::Unknown => {
                    if let Some(m) = last(&mut e.items) {
                        m.insert(f, None);
                    }
                }
            }
            continue;
        }
        e.known += 1;
        let r = rest(l);
        let body = r.split('#').next().unwrap_or("");
        let makes = kw == "newmtl" || r.to_ascii_lowercase().contains("newmtl");
        if let Some(m) = last(&mut e.items) {
            if numeric_only(body) && kw != "newmtl" {
                // Only the statement's own field can be concerned.
                let own = match kw {
                    "ka" => "ambient",
                    "kd" => "diffuse",
                    "ks" => "specular",
                    "ke" => "emissive",
                    "tf" => "transmission",
                    "ns" => "exponent",
                    "tr" => "transparancy",
                    "ni" => "refraction",
                    "d" => "disolve",
                    "map_disp" => "disp",
                    "map_aat" => "aat",
                    k => k,
                };
                if let Some(f) = MAT_FIELDS.iter().find(|f| **f == own) {
                    m.insert(f, None);
                }
            } else if kw != "newmtl" {
                m.values_mut().for_each(|v| *v = None);
            }
        }
        if makes {
            if let Some(m) = last(&mut e.items) {
                m.iter_mut().filter(|(k, _)| **k != "name").for_each(|(_, v)| *v = None);
            }
            e.items.push(MItem::Wild);
            at = At::Unknown;
        }
    }
    e
}

impl MtlExp {
    /// All lines are whole and one of them is an attribute without a material.
    pub fn must_fail(&self) -> bool {
        self.orphan
    }
    pub fn check(&self, got: &[CMaterial]) -> Result<(), String> {
        let fits = |m: &BTreeMap<&'static str, Option<String>>, g: &CMaterial| {
            g.iter().find(|(k, v)| m[k].as_ref().is_some_and(|w| w != v)).map(|(k, v)| {
                format!("material {:?}: {k} expected {:?} found {v:?}", m["name"].as_deref().unwrap_or("?"), m[k])
            })
        };
        let mut reach = Reach::start();
        let mut why = String::new();
        for i in &self.items {
            match i {
                MItem::Wild => reach.any(),
                MItem::Mat(m) => {
                    reach.one(got.len(), |j| match fits(m, &got[j]) {
                        None => true,
                        Some(w) => {
                            why = w;
                            false
                        }
                    });
                    if reach.nowhere() {
                        if why.is_empty() {
                            why = format!("material {:?} is missing", m["name"]);
                        }
                        return Err(why);
                    }
                }
            }
        }
        if reach.at(got.len()) {
            Ok(())
        } else {
            Err(format!("{} materials found, more than the text describes. {why}", got.len()))
        }
    }
}

/// For the generator and its tests.
pub fn class(line: &str, is_mtl: bool, written: bool) -> Class {
    let w = words(line);
    if w.is_empty() || w[0].starts_with('#') {
        return Class::Blank;
    }
    if is_mtl {
        let mut kws = MTL_KW.to_vec();
        kws.push("map_aat");
        match keyword(line, &kws) {
            None => Class::Inert,
            Some(k) if mtl_stmt(line, k, written).is_some() => Class::Clean,
            _ => Class::Known,
        }
    } else {
        match keyword(line, &OBJ_KW) {
            None => Class::Inert,
            Some(k) if obj_stmt(line, k, written).is_some() => Class::Clean,
            _ => Class::Known,
        }
    }
}
