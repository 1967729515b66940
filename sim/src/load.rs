//! Calls into the code under test, and the canonical text of what they return.
use crate::logger;
use crate::sched::{self, IN_LIB};
use crate::shared::{count, C};
use nobject_rs::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Obj,
    Mtl,
}

pub enum Out {
    Obj(Model),
    Mtl(Vec<Material>),
    Err(ObjError),
    /// Unwound: by a panic of the code under test.
    Panic(String),
    /// Unwound: by the panic the simulated logger raised.
    LogPanic,
    /// Unwound: by the allocation error handler.
    Oom,
}

/// What the simulator's own panics carry.
pub struct LogPanic;
pub struct OomPanic;

/// Generous: an honest load takes a few hundred steps per byte.
pub fn bound_for(text: &str) -> u64 {
    let longest = text.split(['\n', '\r']).map(str::len).max().unwrap_or(0) as u64;
    2_000_000 + 4000 * text.len() as u64 + 200 * longest * longest
}

/// Something of the application's which lies on the stack below a load.
struct Amid(Option<usize>);
impl Drop for Amid {
    fn drop(&mut self) {
        if let Some(d) = self.0.filter(|_| std::thread::panicking()) {
            let inl = IN_LIB.replace(false);
            logger::amid(d);
            IN_LIB.set(inl);
        }
    }
}

pub fn load(kind: Kind, text: &str) -> Out {
    let (was_in, was_left) = sched::in_load();
    sched::begin_load(bound_for(text));
    let was = IN_LIB.replace(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _amid = Amid(if was_in { None } else { logger::script().and_then(|s| s.amid()) });
        match kind {
            Kind::Obj => load_obj(text).map(Out::Obj),
            Kind::Mtl => load_mtl(text).map(Out::Mtl),
        }
    }));
    IN_LIB.set(was);
    sched::end_load();
    if was_in {
        sched::begin_load(was_left);
    }
    let r = match r {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => Out::Err(e),
        Err(p) => {
            if p.is::<LogPanic>() {
                Out::LogPanic
            } else if p.is::<OomPanic>() {
                Out::Oom
            } else {
                Out::Panic(
                    p.downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_else(|| "?".into()),
                )
            }
        }
    };
    count(
        match r {
            Out::Obj(_) | Out::Mtl(_) => C::LoadOk,
            Out::Err(_) => C::LoadErr,
            _ => C::LoadPanic,
        },
        1,
    );
    r
}

impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Obj(_) | Out::Mtl(_))
    }
    pub fn text(&self) -> String {
        match self {
            Out::Obj(m) => canon_model(m).text(),
            Out::Mtl(v) => {
                let mut o = format!("{} materials\n", v.len());
                for m in v {
                    for (k, v) in canon_material(m) {
                        if v != "-" {
                            writeln!(o, "{k} {v}").unwrap();
                        }
                    }
                }
                o
            }
            Out::Err(e) => format!("error {e}\n{e:?}\n"),
            Out::Panic(p) => format!("panic {p}\n"),
            Out::LogPanic => "unwound by the logger\n".into(),
            Out::Oom => "unwound by the allocation error handler\n".into(),
        }
    }
}

pub fn fl(v: f32) -> String {
    // Zero has one spelling here: integers have no negative zero.
    if v == 0.0 {
        "0".into()
    } else {
        format!("{v:?}")
    }
}
pub fn ofl(v: Option<f32>) -> String {
    v.map_or("-".into(), fl)
}
pub fn oi(v: Option<i32>) -> String {
    v.map_or("-".into(), |i| i.to_string())
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct CModel {
    pub vertices: Vec<String>,
    pub normals: Vec<String>,
    pub textures: Vec<String>,
    pub faces: BTreeMap<String, Vec<String>>,
    pub lines: BTreeMap<String, Vec<String>>,
    pub points: BTreeMap<String, Vec<String>>,
    /// material, bevel, c_interp, d_interp, lod, texture map
    pub groups: BTreeMap<String, [String; 6]>,
    pub mtllibs: Vec<String>,
    pub maplibs: Vec<String>,
    pub shadow: Option<String>,
    pub trace: Option<String>,
}

pub fn face_text(e: &[(i32, Option<i32>, Option<i32>)], smoothing: &str) -> String {
    let mut o = format!("s{smoothing}");
    for (v, t, n) in e {
        write!(o, " {v}/{}/{}", oi(*t), oi(*n)).unwrap();
    }
    o
}
pub fn line_text(e: &[(i32, Option<i32>)]) -> String {
    e.iter().map(|(v, t)| format!(" {v}/{}", oi(*t))).collect()
}
pub fn point_text(e: &[i32]) -> String {
    e.iter().map(|v| format!(" {v}")).collect()
}
pub fn ostr(s: &Option<String>) -> String {
    s.as_ref().map_or("-".into(), |s| format!("{s:?}"))
}

fn per_group<T>(m: &HashMap<String, Vec<T>>, f: impl Fn(&T) -> String) -> BTreeMap<String, Vec<String>> {
    m.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.clone(), v.iter().map(&f).collect())).collect()
}

pub fn canon_model(m: &Model) -> CModel {
    CModel {
        vertices: m.vertices.iter().map(|v| format!("{} {} {} {}", fl(v.x), fl(v.y), fl(v.z), ofl(v.w))).collect(),
        normals: m.normals.iter().map(|v| format!("{} {} {}", fl(v.x), fl(v.y), fl(v.z))).collect(),
        textures: m.textures.iter().map(|v| format!("{} {} {}", fl(v.u), ofl(v.v), ofl(v.w))).collect(),
        faces: per_group(&m.faces, |f| {
            let e: Vec<_> = f.elements.iter().map(|e| (e.vertex_index, e.texture_index, e.normal_index)).collect();
            face_text(&e, &f.smoothing_group.to_string())
        }),
        lines: per_group(&m.lines, |l| {
            let e: Vec<_> = l.elements.iter().map(|e| (e.vertex_index, e.texture_index)).collect();
            line_text(&e)
        }),
        points: per_group(&m.points, |p| point_text(&p.elements)),
        groups: m
            .groups
            .iter()
            .map(|(k, g)| {
                (
                    k.clone(),
                    [
                        g.material_name.clone(),
                        g.bevel.to_string(),
                        g.c_interp.to_string(),
                        g.d_interp.to_string(),
                        g.lod.to_string(),
                        ostr(&g.texture_map),
                    ],
                )
            })
            .collect(),
        mtllibs: m.material_libs.clone(),
        maplibs: m.texture_libs.clone(),
        shadow: m.shadow_obj.clone(),
        trace: m.trace_obj.clone(),
    }
}

impl CModel {
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (n, l) in [("v", &self.vertices), ("vn", &self.normals), ("vt", &self.textures)] {
            for x in l {
                writeln!(o, "{n} {x}").unwrap();
            }
        }
        for (n, m) in [("f", &self.faces), ("l", &self.lines), ("p", &self.points)] {
            for (g, l) in m {
                for x in l {
                    writeln!(o, "{n} {g:?} {x}").unwrap();
                }
            }
        }
        for (g, s) in &self.groups {
            writeln!(o, "g {g:?} {s:?}").unwrap();
        }
        writeln!(o, "libs {:?} {:?} {:?} {:?}", self.mtllibs, self.maplibs, self.shadow, self.trace).unwrap();
        o
    }
}

pub const MAT_FIELDS: [&str; 22] = [
    "name", "ambient", "diffuse", "specular", "emissive", "exponent", "disolve", "transparancy", "transmission",
    "sharpness", "refraction", "illum", "map_ka", "map_kd", "map_ks", "map_ns", "map_d", "disp", "decal", "bump",
    "refl", "aat",
];

pub fn rgb(k: &str, a: f32, b: f32, c: f32) -> String {
    format!("{k}({} {} {})", fl(a), fl(b), fl(c))
}
fn color(c: &Option<ColorType>) -> String {
    match c {
        None => "-".into(),
        Some(ColorType::Rgb(a, b, c)) => rgb("rgb", *a, *b, *c),
        Some(ColorType::CieXyz(a, b, c)) => rgb("xyz", *a, *b, *c),
        Some(ColorType::Spectral(f, v)) => format!("spectral({f:?} {})", fl(*v)),
    }
}

/// The options of a map, in canonical order.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct CMap {
    pub file: String,
    pub on: BTreeMap<&'static str, bool>,
    pub num: BTreeMap<&'static str, Vec<Option<f32>>>,
    pub res: Option<i32>,
    pub chan: Option<String>,
    pub ty: Option<String>,
}
impl CMap {
    pub fn text(&self) -> String {
        let mut o = format!("{:?}", self.file);
        for (k, v) in &self.on {
            write!(o, " {k}={v}").unwrap();
        }
        for (k, v) in &self.num {
            write!(o, " {k}=").unwrap();
            for x in v {
                write!(o, "{},", ofl(*x)).unwrap();
            }
        }
        write!(o, " {} {} {}", oi(self.res), ostr(&self.chan), ostr(&self.ty)).unwrap();
        o
    }
    fn flag(&mut self, k: &'static str, v: Option<bool>) {
        if let Some(v) = v {
            self.on.insert(k, v);
        }
    }
    fn tri(&mut self, k: &'static str, v: Option<(f32, Option<f32>, Option<f32>)>) {
        if let Some((a, b, c)) = v {
            self.num.insert(k, vec![Some(a), b, c]);
        }
    }
    fn pair(&mut self, v: Option<(f32, f32)>) {
        if let Some((a, b)) = v {
            self.num.insert("mm", vec![Some(a), Some(b)]);
        }
    }
}
fn cc_map(m: &ColorCorrectedMap) -> CMap {
    let mut o = CMap { file: m.file_name.clone(), res: m.texture_res, ..Default::default() };
    o.flag("blendu", m.blend_u);
    o.flag("blendv", m.blend_v);
    o.flag("cc", m.color_correct);
    o.flag("clamp", m.clamp);
    o.pair(m.texture_range);
    o.tri("o", m.offset);
    o.tri("s", m.scale);
    o.tri("t", m.turbulance);
    o
}
fn ncc_map(m: &NonColorCorrectedMap) -> CMap {
    let mut o =
        CMap { file: m.file_name.clone(), res: m.texture_res, chan: m.imf_chan.clone(), ..Default::default() };
    o.flag("blendu", m.blend_u);
    o.flag("blendv", m.blend_v);
    o.flag("clamp", m.clamp);
    o.pair(m.texture_range);
    o.tri("o", m.offset);
    o.tri("s", m.scale);
    o.tri("t", m.turbulance);
    o
}

pub fn canon_material(m: &Material) -> Vec<(&'static str, String)> {
    let cc = |m: &Option<ColorCorrectedMap>| m.as_ref().map_or("-".into(), |m| cc_map(m).text());
    let ncc = |m: &Option<NonColorCorrectedMap>| m.as_ref().map_or("-".into(), |m| ncc_map(m).text());
    let v = [
        m.name.clone(),
        color(&m.ambient),
        color(&m.diffuse),
        color(&m.specular),
        color(&m.emissive_coefficient),
        ofl(m.specular_exponent),
        match m.disolve {
            None => "-".into(),
            Some(DisolveType::Alpha(v)) => format!("alpha {}", fl(v)),
            Some(DisolveType::Halo(v)) => format!("halo {}", fl(v)),
        },
        ofl(m.transparancy),
        color(&m.transmission_factor),
        ofl(m.sharpness),
        ofl(m.index_of_refraction),
        m.illumination_mode.map_or("-".into(), |v| v.to_string()),
        cc(&m.texture_map_ambient),
        cc(&m.texture_map_diffuse),
        cc(&m.texture_map_specular),
        ncc(&m.shininess_map),
        ncc(&m.disolve_map),
        ncc(&m.displacement_map),
        ncc(&m.decal),
        m.bump_map.as_ref().map_or("-".into(), |b| match &b.map_settings {
            None => "none".into(),
            Some(s) => {
                let mut c = ncc_map(s);
                if let Some(v) = b.bump_multiplier {
                    c.num.insert("bm", vec![Some(v)]);
                }
                c.text()
            }
        }),
        m.reflection_map.as_ref().map_or("-".into(), |r| match &r.map_settings {
            None => "none".into(),
            Some(s) => {
                let mut c = cc_map(s);
                c.ty = Some(r.reflection_type.clone());
                c.text()
            }
        }),
        m.anti_alias_map.map_or("-".into(), |v| v.to_string()),
    ];
    MAT_FIELDS.iter().copied().zip(v).collect()
}
