//! Makes plans. Everything is drawn from the run's seed; every run draws its own mix
//! of statements, layout, schedule shape and faults.
use crate::load::Kind;
use crate::plan::Plan;
use crate::rec;
use crate::refmodel::{self, Class};
use crate::rng::Rng;

/// How the documents of one run look.
pub struct Style {
    pub mtl: bool,
    /// Weights of statement kinds.
    w: Vec<u64>,
    indent: bool,
    spaces: bool,
    tabs: bool,
    upper: bool,
    comments: bool,
    blanks: bool,
    unicode: bool,
    hard_names: bool,
    groups: u64,
    wide: u64,
    /// Statements the library does not support.
    foreign: bool,
    /// Statements which make the library report a diagnostic.
    noisy: bool,
    /// If not empty: the few kinds of diagnostics this document is about.
    focus: Vec<u64>,
    /// Unusual statements, which say something all the same.
    quirk: bool,
    /// How group names look.
    names: u64,
    /// One line of this many elements, once.
    long: u64,
}

const OBJ: [&str; 20] = [
    "v", "vn", "vt", "f", "g", "usemtl", "s", "l", "p", "o", "mtllib", "bevel", "c_interp", "d_interp", "lod",
    "shadow_obj", "trace_obj", "maplib", "usemap", "vp",
];
const MTL: [&str; 23] = [
    "newmtl", "Ka", "Kd", "Ks", "Ke", "Ns", "d", "Tr", "Tf", "sharpness", "Ni", "illum", "map_Ka", "map_Kd", "map_Ks",
    "map_Ns", "map_d", "disp", "decal", "bump", "refl", "map_aat", "map_disp",
];

impl Style {
    pub fn draw(r: &mut Rng, mtl: bool) -> Style {
        let n = if mtl { MTL.len() } else { OBJ.len() };
        let mut w: Vec<u64> = (0..n).map(|_| if r.chance(0.35) { 0 } else { r.below(8) + 1 }).collect();
        if mtl {
            w[0] = r.below(8) + 1;
        } else {
            // Without these a document says little.
            w[0] = r.below(6) + 2;
            w[3] = r.below(8) + 2;
            w[4] = r.below(5);
        }
        Style {
            mtl,
            w,
            indent: r.chance(0.2),
            spaces: r.chance(0.2),
            tabs: r.chance(0.15),
            upper: r.chance(0.15),
            comments: r.chance(0.3),
            blanks: r.chance(0.3),
            unicode: r.chance(0.25),
            hard_names: r.chance(0.4),
            groups: if r.chance(0.06) { r.logu(5, 60) } else { 1 + r.below(4) },
            wide: if r.chance(0.1) { 40 } else { 5 },
            foreign: false,
            noisy: false,
            focus: Vec::new(),
            quirk: false,
            names: r.below(8),
            long: 0,
        }
    }
    pub fn noisy(mut self, r: &mut Rng) -> Self {
        self.noisy = true;
        self.foreign = r.chance(0.7);
        if r.chance(0.4) {
            self.focus = (0..r.below(3) + 1).map(|_| r.below(NOISE)).collect();
        }
        self
    }
    /// For documents of which only matters that they load the same way every time.
    pub fn quirky(mut self, r: &mut Rng) -> Self {
        self.quirk = r.chance(0.4);
        self
    }
    pub fn foreign(mut self) -> Self {
        self.foreign = true;
        self
    }
}

fn number(r: &mut Rng) -> String {
    let v = r.range(-1200, 1200) as f64 / 100.0;
    match r.below(15) {
        14 => match r.below(8) {
            0 => format!("00{}.{:03}00", r.below(100), r.below(1000)),
            1 => format!("{:.17}", v * 1.000_000_1),
            2 => format!("{:e}", f32::from_bits(r.below(0x7F7F_FFFF) as u32)),
            3 => format!("{}", -f32::from_bits(r.below(0x4F00_0000) as u32)),
            4 => format!("00{}", r.below(100)),
            5 => ["1e-40", "-1e-45", "1e38", "3.4028235e38", "1e-46", "0e5", "1.17549435e-38"][r.below(7) as usize].into(),
            6 => format!("{}{:018}", r.below(9) + 1, r.next() % 1_000_000_000_000_000_000),
            _ => format!("0.{:025}", r.next()),
        },
        0 => format!("{}", r.range(-9, 99)),
        1 => format!("{}.", r.range(-9, 99)),
        2 => format!(".{}", r.below(1000)),
        3 => format!("-.{}", r.below(1000)),
        4 => format!("{:.3}e{}", v, r.range(-6, 6)),
        5 => format!("{}e-{}", r.below(90) + 1, r.below(9)),
        6 => format!("{:.2}E+0{}", v, r.below(6)),
        7 => format!("{}", 2_147_483_600u64 + r.below(5_000_000_000)),
        8 => format!("+{:.2}", v.abs()),
        9 => format!("{:.9}", r.range(-2_000_000_000, 2_000_000_000) as f64 / 7e8),
        10 => ["0", "1", "-1", "0.0", "-0.0", "1.0", "16777217", "0.1", "100", "1e10"][r.below(10) as usize].into(),
        _ => format!("{:.4}", v),
    }
}

fn index(r: &mut Rng) -> String {
    match r.below(13) {
        12 => format!("{}{}", r.pick(&["0", "00", "+", "-0"]), r.below(3000) + 1),
        0 => format!("-{}", r.below(20) + 1),
        1 => format!("{}", r.below(2_000_000_000) + 1),
        2 => format!("{}", [2147483647i64, -2147483648, 1, -1, 65536, 255][r.below(6) as usize]),
        _ => format!("{}", r.below(30) + 1),
    }
}

fn word(r: &mut Rng, st: &Style) -> String {
    const A: [&str; 22] = [
        "Mat", "wood", "Default", "metal_01", "x", "body.001", "frost_wind", "cube", "lambert4SG", "A", "b",
        "Material", "skin-dark", "Wheel", "none", "g", "vertex", "on", "group", "eye", "_t", "front",
    ];
    const U: [&str; 6] = ["Würfel", "材質", "naïve", "Ωmega", "тело", "é🦀"];
    let mut s = if st.unicode && r.chance(0.3) {
        r.pick(&U).to_string()
    } else if r.chance(0.25) {
        letters(r)
    } else {
        r.pick(&A).to_string()
    };
    if r.chance(0.4) {
        s.push_str(&format!("{}", r.below(40)));
    }
    s
}

/// A word of random letters, digits and punctuation, so that no character
/// is special merely because no chosen word has it.
fn letters(r: &mut Rng) -> String {
    const F: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const C: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_;:,=+@!$%&()[]{}<>^~|?*'`";
    loop {
        let mut s = String::new();
        s.push(F[r.below(F.len() as u64) as usize] as char);
        for _ in 0..3 + r.below(9) {
            s.push(C[r.below(C.len() as u64) as usize] as char);
        }
        let low = s.to_ascii_lowercase();
        if !low.starts_with("inf") && !low.starts_with("nan") {
            return s;
        }
    }
}

/// Names which a program might take for something else.
const ODD_NAMES: [&str; 34] = [
    ".", "..", "...", "/", "//", "./a.mtl", "././a", "../..", "\\", "C:", "-", "--", "-s", "*", "?", "%", "%s", "%20", "{}", "{0}", "$", "~",
    "null", "nil", "(null)", "NaN", "inf", "-inf", "0x10", "1e999", "off", "default", "\"\"", "'",
];

/// A name which is read to the end of its line.
fn free_name(r: &mut Rng, st: &Style) -> String {
    if !st.hard_names || r.chance(0.5) {
        return word(r, st);
    }
    match r.below(11) {
        10 => ODD_NAMES[r.below(ODD_NAMES.len() as u64) as usize].into(),
        0 => format!("{}", r.below(1000)),
        8 => format!("{}{}", r.pick(&["/etc/", "./", "../", "~/", "file:///", "http://localhost/", "$HOME/", "-", "~root/", "${HOME}/", "%TEMP%\\", "\\\\host\\", "/dev/", "/proc/self/", "@", "!", "|", "<"]), word(r, st)),
        9 => word(r, st).repeat(r.logu(1, 40) as usize),
        1 => format!("{} {}", word(r, st), word(r, st)),
        2 => format!("{}.{}", r.below(10), word(r, st)),
        3 => format!("{}/{}", word(r, st), word(r, st)),
        4 => format!("-{}", word(r, st)),
        5 => format!("{}  v 1 2", word(r, st)),
        6 => format!("{}#{}", word(r, st), r.below(9)),
        _ => format!("C:\\{}\\{}.mtl", word(r, st), word(r, st)),
    }
}

/// A name from the small set of the run, so that names recur.
fn group_name(r: &mut Rng, st: &Style) -> String {
    let i = r.below(st.groups + 1);
    if i == 0 {
        return "default".into();
    }
    if st.hard_names && i == 2 {
        return "two words".into();
    }
    if st.unicode && i == 3 {
        return "Grüppe".into();
    }
    match st.names {
        // Names which differ late, in case, in length, or hardly at all.
        0 => format!("{}{i}", "a_rather_long_common_prefix_".repeat(3)),
        1 => ["Body", "body", "BODY", "bODY"][i as usize % 4].to_string() + &"y".repeat(i as usize / 4),
        2 => format!("g{}", "1".repeat(i as usize)),
        3 => format!("{}", i % 7),
        4 => ["wheel front", "wheel", "wheel  front", "wheel front left"][i as usize % 4].to_string() + &"t".repeat(i as usize / 4),
        5 => ["default", "Default", "default ", "defaul", "default2"][i as usize % 5].trim().to_string() + &"_".repeat(i as usize / 5),
        _ => format!("grp{i}"),
    }
}

fn file_name(r: &mut Rng, st: &Style) -> String {
    let w = loop {
        let w = word(r, st);
        if w != "on" {
            break w;
        }
    };
    let w = match r.below(12) {
        0 => format!("textures/{w}"),
        1 => format!("a\\b\\{w}"),
        2 if st.hard_names => {
            let p = ["/etc/", "./", "../", "~/", "~root/", "file:///", "http://localhost/", "$HOME/", "${HOME}/", "%TEMP%\\", "C:\\", "//host/", "\\\\host\\", "/dev/", "data:,", "@", "!"];
            format!("{}{w}", r.pick(&p))
        }
        _ => w,
    };
    format!("{w}{}", r.pick(&[".png", ".mpc", ".tga", "_d.jpg", ".mps", ".PNG", ".dds", ".png.gz", ".mtl"]))
}

fn onoff(r: &mut Rng) -> &'static str {
    if r.chance(0.5) {
        "on"
    } else {
        "off"
    }
}

fn color(r: &mut Rng, st: &Style) -> String {
    match r.below(8) {
        0 => format!("spectral {}", file_name(r, st).replace(".png", ".rfl")),
        1 => format!("spectral {} {}", file_name(r, st), number(r)),
        2 => format!("xyz {}", number(r)),
        3 => format!("xyz {} {} {}", number(r), number(r), number(r)),
        _ => format!("{} {} {}", number(r), number(r), number(r)),
    }
}

fn map(r: &mut Rng, st: &Style, kw: &str) -> String {
    let cc = matches!(kw, "map_Ka" | "map_Kd" | "map_Ks" | "refl");
    let mut opts: Vec<&str> = vec!["-blendu", "-blendv", "-clamp", "-mm", "-o", "-s", "-t", "-texres", "-boost"];
    opts.push(if cc { "-cc" } else { "-imfchan" });
    if kw == "bump" {
        opts.push("-bm");
    }
    if kw == "refl" {
        opts.push("-type");
    }
    let mut s = String::new();
    let n = r.below(5);
    for _ in 0..n {
        let o = opts.remove(r.below(opts.len() as u64) as usize);
        s.push_str(&match o {
            "-blendu" | "-blendv" | "-clamp" | "-cc" => format!("{o} {} ", onoff(r)),
            "-mm" => format!("{o} {} {} ", number(r), number(r)),
            "-o" | "-s" | "-t" => {
                let k = r.below(3) + 1;
                let v: Vec<String> = (0..k).map(|_| number(r)).collect();
                format!("{o} {} ", v.join(" "))
            }
            "-texres" => format!("{o} {} ", r.below(4096)),
            "-imfchan" => format!("{o} {} ", r.pick(&["r", "g", "b", "m", "l", "z"])),
            "-type" => format!("{o} {} ", r.pick(&["sphere", "cube_top", "cube_left", "cube_back"])),
            _ => format!("{o} {} ", number(r)),
        });
    }
    s + &file_name(r, st)
}

/// One statement with its arguments, in plain layout.
fn statement(r: &mut Rng, st: &Style) -> String {
    let total: u64 = st.w.iter().sum();
    let mut x = r.below(total.max(1));
    let i = st.w.iter().position(|w| if x < *w { true } else { x -= w; false }).unwrap_or(0);
    named(r, st, if st.mtl { MTL[i] } else { OBJ[i] })
}

pub fn named(r: &mut Rng, st: &Style, kw: &str) -> String {
    let nums = |r: &mut Rng, n: u64| (0..n).map(|_| number(r)).collect::<Vec<_>>().join(" ");
    let a = match kw {
        "v" => {
            let n = if r.chance(0.2) { 4 } else { 3 };
            nums(r, n)
        }
        "vn" => nums(r, 3),
        "vt" | "vp" => {
            let n = r.below(3) + 1;
            nums(r, n)
        }
        "f" => {
            let form = r.below(5);
            let n = if r.chance(0.8) { 3 + r.below(2) } else { r.below(st.wide) + 1 };
            let mixed = r.chance(0.05);
            (0..n)
                .map(|_| match if mixed { r.below(4) } else { form } {
                    0 => index(r),
                    1 => format!("{}/{}", index(r), index(r)),
                    2 => format!("{}//{}", index(r), index(r)),
                    _ => format!("{}/{}/{}", index(r), index(r), index(r)),
                })
                .collect::<Vec<_>>()
                .join(" ")
        }
        "l" => {
            let tex = r.chance(0.5);
            let n = 2 + r.below(st.wide);
            (0..n)
                .map(|_| if tex { format!("{}/{}", index(r), index(r)) } else { index(r) })
                .collect::<Vec<_>>()
                .join(" ")
        }
        "p" => {
            let n = 1 + r.below(st.wide);
            (0..n).map(|_| index(r)).collect::<Vec<_>>().join(" ")
        }
        "g" => group_name(r, st),
        "s" => match r.below(5) {
            0 => "off".into(),
            1 if st.noisy => "on".into(),
            _ => r.below(6).to_string(),
        },
        "bevel" | "c_interp" | "d_interp" | "map_aat" => onoff(r).into(),
        "lod" => r.below(101).to_string(),
        "o" | "usemtl" | "mtllib" | "shadow_obj" | "trace_obj" | "maplib" | "usemap" | "newmtl" => free_name(r, st),
        "Ka" | "Kd" | "Ks" | "Ke" | "Tf" => color(r, st),
        "Ns" | "Tr" | "sharpness" | "Ni" => number(r),
        "d" if r.chance(0.3) => format!("-halo {}", number(r)),
        "d" => number(r),
        "illum" => r.below(11).to_string(),
        _ => map(r, st, kw),
    };
    format!("{kw} {a}")
}

/// Varies the layout of a statement without changing what it says.
fn dress(r: &mut Rng, st: &Style, s: String) -> String {
    let (kw, a) = s.split_once(' ').unwrap_or((&s, ""));
    let name = matches!(
        kw,
        "o" | "g" | "usemtl" | "mtllib" | "shadow_obj" | "trace_obj" | "maplib" | "usemap" | "newmtl"
    );
    let word = matches!(kw, "bevel" | "c_interp" | "d_interp") || s == "s off" || s == "s on";
    let numeric = a.bytes().all(|b| b.is_ascii_digit() || b"+-./eE ".contains(&b));
    let mut o = String::new();
    if st.indent {
        for _ in 0..r.below(5) {
            o.push(if st.tabs && r.chance(0.5) { '\t' } else { ' ' });
        }
    }
    if st.upper && r.chance(0.4) {
        o.push_str(&if r.chance(0.5) { kw.to_uppercase() } else { kw.to_lowercase() });
    } else {
        o.push_str(kw);
    }
    let gap = |r: &mut Rng, tabs: bool| -> String {
        if st.tabs && tabs && r.chance(0.4) {
            "\t".into()
        } else if st.spaces && r.chance(0.5) {
            " ".repeat(1 + r.below(4) as usize)
        } else {
            " ".into()
        }
    };
    o.push_str(&gap(r, numeric || name));
    if name || word {
        o.push_str(a);
        if name && st.spaces && r.chance(0.2) {
            o.push(' ');
        }
        return o;
    }
    let mut first = true;
    for x in a.split(' ') {
        if !first {
            o.push_str(&gap(r, numeric));
        }
        first = false;
        o.push_str(x);
    }
    if st.spaces && r.chance(0.2) {
        o.push(' ');
    }
    if st.comments && (numeric || st.mtl) && r.chance(0.15) {
        o.push_str(" # note");
    }
    o
}

const FOREIGN_OBJ: [&str; 20] = [
    "cstype bezier", "deg 3 3", "curv 0.0 1.0 1 2 3 4", "surf 0 1 0 1 1 2 3", "parm u 0.0 1.0", "end", "call x.obj 1",
    "bsp 1 2 3", "stech cparma 1", "ctech cspace 1", "mg 1 0.5", "con 1 2 3 4", "trim 0 1 1", "ctmap foo.png",
    "csh echo 1", "cstype rat bspline", "bmat u 1 0 0 1", "sp 1 2", "vertex 1 2 3", "fo 1 2 3",
];
const FOREIGN_MTL: [&str; 12] = [
    "Pr 0.5", "Pm 0.1", "Ps 0.2", "aniso 0.4", "norm n.png", "map_Pr rough.png", "map_bump b.png", "Km 0.2",
    "anisor 0.1", "Pcr 0.2", "map_Kdx a.png", "mapKd b.png",
];
const BAD_OBJ: [&str; 13] = [
    "v 1 2", "f 1/2/3/4", "f a b c", "vn 1", "v 1 2 3 4 5", "vt 1 2 3 4", "f 1/ 2/ 3/", "f 1// 2//", "p 1.5", "l 1//2 3",
    "s 1 2", "v 1 2 3 abc", "lod 3 4",
];
const BAD_MTL: [&str; 12] = [
    "Kd 1 1", "Ns x", "map_Kd -s a.png", "d -halo", "illum x", "-s 1 1 1", "Kd 1 1 1 1", "map_Kd 1.png", "map_Kd -texres 1.5 a.png",
    "map_Kd -unknown 1 a.png", "Kd red", "map_d -imfchan 1 a.png",
];
/// Statements which load, to something one may not expect.
const QUIRK_OBJ: [&str; 20] = [
    "g a b", "g b a", "v 1.2.3 4", "usemtl a b", "mtllib a.mtl b.mtl", "lod 5 ", "bevel on ", "bevel on # c", "s -1", "s 0",
    "f 0 0 0", "f 1 2 3 v 1 2 3", "f 1/2/3 4//5 6/7 8", "vp 1", "l 1", "usemap 3", "g on", "f 1 1 1", "s off ", "v +1 -.5 1e1",
];
const QUIRK_MTL: [&str; 22] = [
    "map_Kd two words.png", "map_Ka three short words.png", "map_Ks b a.png", "map_d a b c.png", "bump one two.png",
    "refl -type sphere a b.png", "decal q w e r.png", "disp a  b.png", "map_Ns b c.png", "map_Kd -bm 1 a.png",
    "bump -bm 1 -bm 2 b.png", "refl -type sphere -type cube_top a.png", "map_Kd -o 1 -o 2 a.png", "decal a.png -clamp on",
    "illum -1", "illum 300", "map_Kd -imfchan q a.png", "refl -type banana a.png", "Kd xyz 1 2",
    "map_Kd -clamp on -clamp off a.png", "refl a.png", "newmtl two words",
];

/// Kinds of diagnostics `noise` knows.
pub const NOISE: u64 = 10;
/// A line which makes the library complain to its logger; or, if `clean`, the sort of
/// line which does the same thing right.
pub fn noise(r: &mut Rng, mtl: bool, kind: u64, clean: bool) -> String {
    const W: [&str; 9] = ["maybe", "x", "true", "yes", "?", "onn", "of", "ON!", "é"];
    let bad = if clean { onoff(r) } else { *r.pick(&W) };
    let f = *r.pick(&["a.png", "wood.tga", "tex.mpc"]);
    let cc = *r.pick(&["map_Ka", "map_Kd", "map_Ks", "refl"]);
    let ncc = *r.pick(&["map_Ns", "map_d", "disp", "decal", "bump"]);
    let any = if r.chance(0.5) { cc } else { ncc };
    if mtl {
        match kind % NOISE {
            0 if clean => "map_aat on".into(),
            0 => r.pick(&FOREIGN_MTL).to_string(),
            1 | 2 => format!("map_aat {bad}"),
            3 => format!("{any} -clamp {bad} {f}"),
            4 => format!("{any} -blendu {bad} {f}"),
            5 => format!("{any} -blendv {bad} {f}"),
            6 => format!("{cc} -cc {bad} {f}"),
            7 if clean => format!("{any} {f}"),
            7 => r.pick(&["map_Kd", "Ns", "newmtl", "illum", "refl", "d", "Kd"]).to_string(),
            8 => format!("{any} -blendu {bad} -clamp {} -blendv {} {f}", r.pick(&W), onoff(r)),
            _ if clean => "Kd 1 0.5 0.25".into(),
            _ => format!("{} {}", r.below(100), number(r)),
        }
    } else {
        match kind % NOISE {
            0 if clean => "g plain".into(),
            0 => r.pick(&FOREIGN_OBJ).to_string(),
            1 => if clean { "s 1" } else { "s on" }.into(),
            2 => if clean { "s off".into() } else { format!("s {bad}") },
            3 => format!("bevel {bad}"),
            4 => format!("c_interp {bad}"),
            5 => format!("d_interp {bad}"),
            6 if clean => format!("lod {}", r.below(101)),
            6 => format!("lod {}", r.pick(&["300", "-1", "256", "99999"])),
            7 if clean => "usemtl m".into(),
            7 => r.pick(&["s", "g", "usemtl", "o", "p", "l", "bevel", "lod", "f", "v"]).to_string(),
            8 => format!("{} {bad}", r.pick(&["bevel", "c_interp", "d_interp", "s"])),
            _ if clean => "v 1 2 3".into(),
            _ => format!("{} {} {}", r.below(100), number(r), number(r)),
        }
    }
}

/// Some words of either format in no sensible order.
pub fn soup(r: &mut Rng, mtl: bool) -> String {
    const T: [&str; 36] = [
        "/", "//", "1/2/3", "1//3", "1/", "/1", "-", "--", "#", "on", "off", "-o", "-s", "-t", "-mm", "-bm", "-cc", "-clamp",
        "-texres", "-imfchan", "-type", "-halo", "-boost", "xyz", "spectral", "a.png", ".", "..", "e5", "1e5", "0x1F", "\"q\"",
        "a/b", "nan", "-blendu", "é",
    ];
    let mut s = String::new();
    for i in 0..r.below(8) + 1 {
        if i > 0 {
            s.push_str(r.pick(&[" ", " ", " ", "  ", "\t", ""]));
        }
        match r.below(6) {
            0 | 1 => s.push_str(&number(r)),
            2 => s.push_str(if mtl { r.pick(&MTL[..]) } else { r.pick(&OBJ[..]) }),
            3 if i == 0 => s.push_str(if mtl { r.pick(&MTL[..]) } else { r.pick(&OBJ[..]) }),
            4 => s.push_str(&index(r)),
            _ => s.push_str(r.pick(&T)),
        }
    }
    s
}

/// A line of comment.
fn comment(r: &mut Rng) -> String {
    let n = match r.below(3) {
        0 => r.below(100),
        1 => r.logu(100, 1_000_000),
        _ => r.logu(1_000_000, 1 << 33),
    };
    let what = *r.pick(&["vertices", "faces", "texture coords", "vertex normals", "materials", "polygons", "bytes", "lines"]);
    match r.below(12) {
        0 => format!("# {n} {what}"),
        1 => format!("#{n} {what}"),
        2 => format!("# {what}: {n}"),
        3 => format!("# Material Count: {n}"),
        4 => format!("# begin {n} {what}"),
        5 => format!("# {}", r.pick(&["Blender v2.79 (sub 0) OBJ File: 'x.blend'", "www.blender.org", "File exported by ZBrush version 4R7", "object Box01", "end", "eof", "include other.obj", "encoding: utf-8", "version 2.0", "-*- unit: cm -*-", "!", "~~~", "#", "off"])),
        6 => "#".into(),
        7 => "  # v 1 2 3".into(),
        8 => "#newmtl x".into(),
        9 => "# ünïcode ✓".into(),
        _ => "# comment".into(),
    }
}

pub fn line(r: &mut Rng, st: &Style) -> String {
    if st.blanks && r.chance(0.1) {
        return ["", "   ", "\t"][r.below(3) as usize].into();
    }
    if st.comments && r.chance(0.1) {
        return comment(r);
    }
    if st.foreign && r.chance(0.08) {
        return if st.mtl { r.pick(&FOREIGN_MTL).to_string() } else { r.pick(&FOREIGN_OBJ).to_string() };
    }
    if st.noisy && !st.focus.is_empty() && r.chance(0.6) {
        let k = *r.pick(&st.focus);
        let clean = r.chance(0.4);
        return noise(r, st.mtl, k, clean);
    }
    if st.noisy && r.chance(0.25) {
        let k = r.below(NOISE);
        return noise(r, st.mtl, k, false);
    }
    if st.quirk && r.chance(0.25) {
        return if st.mtl { r.pick(&QUIRK_MTL).to_string() } else { r.pick(&QUIRK_OBJ).to_string() };
    }
    let s = statement(r, st);
    dress(r, st, s)
}

/// A statement which goes on for a long time.
fn long_line(r: &mut Rng, st: &Style, n: u64) -> String {
    if st.mtl {
        match r.below(3) {
            // The last of many options counts.
            0 if st.quirk => format!("map_Kd {}{}", "-texres 1 ".repeat(n as usize / 2), file_name(r, st)),
            1 => format!("newmtl {}", word(r, st).repeat(n as usize)),
            _ => format!("map_d {}.png", "x".repeat(n as usize * 4)),
        }
    } else {
        let form = r.below(4);
        match r.below(8) {
            0 => format!("g {}", word(r, st).repeat(n as usize)),
            1 => format!("usemtl {}", word(r, st).repeat(n as usize)),
            2 => {
                let v: Vec<String> = (0..n).map(|i| if form < 2 { format!("{}", i + 1) } else { format!("{}/{}", i + 1, i + 2) }).collect();
                format!("l {}", v.join(" "))
            }
            3 | 4 => {
                let v: Vec<String> = (0..n).map(|i| format!("{}", i + 1)).collect();
                format!("p {}", v.join(" "))
            }
            _ => {
                let v: Vec<String> = (0..n)
                    .map(|i| match form {
                        0 => format!("{}", i + 1),
                        1 => format!("{}/{}", i + 1, i + 2),
                        2 => format!("{}//{}", i + 1, i + 2),
                        _ => format!("{}/{}/{}", i + 1, i + 2, i + 3),
                    })
                    .collect();
                format!("f {}", v.join(" "))
            }
        }
    }
}

/// The lines of a document.
pub fn document(r: &mut Rng, st: &Style, n: u64) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n {
        let l = line(r, st);
        // An attribute needs a material before it.
        if st.mtl
            && !v.iter().any(|x| x.trim_start().to_ascii_lowercase().starts_with("newmtl"))
            && matches!(refmodel::class(&l, true, true), Class::Clean | Class::Known)
            && !l.trim_start().to_ascii_lowercase().starts_with("newmtl")
        {
            let s = named(r, st, "newmtl");
            v.push(dress(r, st, s));
        }
        v.push(l);
    }
    if st.long > 0 {
        let l = long_line(r, st, st.long);
        let at = if st.mtl { v.len() as u64 } else { r.below(v.len() as u64 + 1) };
        v.insert(at as usize, l);
    }
    v
}

/// Names of documents and how many lines they have.
fn doc_len(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 1,
        1 => r.below(4) + 1,
        2..=7 => r.logu(3, 25),
        _ => r.logu(10, 60),
    }
}

/// Whether, and how often, the lines of a document are repeated with small changes.
fn times(r: &mut Rng, p: f64, most: u64) -> u64 {
    if r.chance(p) {
        r.logu(20, most)
    } else {
        1
    }
}

fn put_doc(p: &mut Plan, id: usize, mtl: bool, nl: bool, lines: &[String], times: u64) {
    rec!(p, "doc", id, if mtl { "mtl" } else { "obj" }, nl as i64, times);
    for l in lines {
        rec!(p, "line", id, l);
    }
}

/// A document of the same length which differs in a few characters.
fn twin(r: &mut Rng, lines: &[String]) -> Vec<String> {
    let mut v = lines.to_vec();
    match r.below(10) {
        4 => {
            v.pop();
        }
        7 => {
            // What a reader of a file which grows sees.
            v.truncate(1 + r.below(v.len().max(1) as u64) as usize);
            if let Some(l) = v.last_mut().filter(|_| r.chance(0.6)) {
                let n = r.below(l.chars().count() as u64 + 1) as usize;
                *l = l.chars().take(n).collect();
            }
        }
        5 => {
            if let Some(l) = v.last().cloned() {
                v.push(l);
            }
        }
        6 => {
            // The other case of one letter.
            let k = r.below(v.len().max(1) as u64) as usize;
            if let Some(l) = v.get_mut(k) {
                let n = l.chars().count() as u64;
                let at = r.below(n.max(1)) as usize;
                *l = l
                    .chars()
                    .enumerate()
                    .map(|(i, c)| match c {
                        c if i != at => c,
                        c if c.is_ascii_lowercase() => c.to_ascii_uppercase(),
                        c => c.to_ascii_lowercase(),
                    })
                    .collect();
            }
        }
        // Swap two lines.
        0 if v.len() > 1 => {
            let (a, b) = (r.below(v.len() as u64) as usize, r.below(v.len() as u64) as usize);
            v.swap(a, b);
        }
        // Swap two neighbouring digits somewhere.
        1 => {
            let k = r.below(v.len().max(1) as u64) as usize;
            if let Some(l) = v.get_mut(k) {
                let mut b = l.clone().into_bytes();
                for i in 1..b.len() {
                    if b[i].is_ascii_digit() && b[i - 1].is_ascii_digit() && b[i] != b[i - 1] {
                        b.swap(i, i - 1);
                        break;
                    }
                }
                *l = String::from_utf8(b).unwrap();
            }
        }
        // Change digits, in the last lines most often.
        _ => {
            for _ in 0..=r.below(3) {
                let n = v.len().max(1) as u64;
                let k = if r.chance(0.6) { n - 1 - r.below(n.min(3)) } else { r.below(n) } as usize;
                if let Some(l) = v.get_mut(k) {
                    let mut b = l.clone().into_bytes();
                    if let Some(i) = (0..b.len()).rev().find(|&i| b[i].is_ascii_digit()) {
                        b[i] = b'0' + ((b[i] - b'0') + 1 + r.below(8) as u8) % 10;
                    }
                    *l = String::from_utf8(b).unwrap();
                }
            }
        }
    }
    v
}

/// Small accidents with a document, anywhere.
fn mutate(r: &mut Rng, v: &mut Vec<String>, mtl: bool) {
    for _ in 0..r.below(4) + 1 {
        let n = v.len().max(1) as u64;
        let k = r.below(n) as usize;
        let other = v.get(r.below(n) as usize).cloned().unwrap_or_default();
        match r.below(9) {
            0 => v.insert(k.min(v.len()), soup(r, mtl)),
            1 if !v.is_empty() => v[k] = format!("{}{other}", v[k]),
            2 if !v.is_empty() => {
                v.remove(k);
            }
            3 => v.insert(k.min(v.len()), other),
            4 if !v.is_empty() => {
                let b = foreign_bytes(r, mtl);
                let at = r.below(v[k].chars().count() as u64 + 1) as usize;
                let at = v[k].char_indices().nth(at).map_or(v[k].len(), |x| x.0);
                v[k].insert_str(at, &b);
            }
            _ if !v.is_empty() => {
                let mut c: Vec<char> = v[k].chars().collect();
                let at = r.below(c.len().max(1) as u64) as usize;
                if at < c.len() {
                    match r.below(4) {
                        0 => drop(c.remove(at)),
                        1 => c.insert(at, *r.pick(&[' ', '\t', '/', '-', '.', '#', '0', 'e', 'x', 'é'])),
                        2 => c.truncate(at),
                        _ => c[at] = *r.pick(&[' ', '/', '-', '.', '#', '9', 'e', 'x', '+']),
                    }
                }
                v[k] = c.into_iter().collect();
            }
            _ => {}
        }
    }
}

fn segs(r: &mut Rng, p: &mut Plan, threads: u64) {
    if threads < 2 {
        return;
    }
    if r.chance(if threads > 8 { 0.6 } else { 0.12 }) {
        // In step: all get equally far, again and again.
        let unit = r.below(3);
        let q = if unit == 0 { r.logu(1, 20_000) } else { r.logu(1, 60) };
        for _ in 0..r.logu(2, if threads > 8 { 8 } else { 30 }) {
            for i in (0..threads).rev() {
                rec!(p, "seg", i, unit as i64, q);
            }
        }
        return;
    }
    let n = match r.below(4) {
        0 => r.below(3),
        1 => r.below(40) + 10,
        _ => r.below(10) + 2,
    };
    // What the schedule cares about in this run.
    let hot = r.chance(0.5);
    for _ in 0..n {
        let unit = if hot && r.chance(0.7) {
            1
        } else if r.chance(0.15) {
            2
        } else {
            0
        };
        let q = match unit {
            1 => r.logu(1, 60),
            2 => r.logu(1, 300),
            _ => r.logu(1, 40_000),
        };
        rec!(p, "seg", r.below(threads), unit as i64, q);
    }
}

/// How many threads, if very many.
fn crowd(r: &mut Rng, chance: f64) -> Option<u64> {
    r.chance(chance).then(|| r.logu(9, 40))
}

fn surroundings(r: &mut Rng, p: &mut Plan) {
    rec!(p, "cfg", "hash", r.next() >> 1);
    rec!(p, "cfg", "garbage", r.below(256));
    if r.chance(0.5) {
        rec!(p, "cfg", "level", r.below(6));
    }
    if r.chance(0.3) {
        rec!(p, "cfg", "env", 1);
    }
    if r.chance(0.3) {
        rec!(p, "cfg", "clock", r.next() as i64 >> 3);
    }
    ticking(r, p);
    if r.chance(0.2) {
        rec!(p, "cfg", "stack", 256);
    }
    if r.chance(0.3) {
        rec!(p, "cfg", "names", r.below(5) + 1);
    }
    if r.chance(0.2) {
        rec!(p, "cfg", "common", r.below(2) + 1);
    }
    if r.chance(0.3) {
        rec!(p, "cfg", "shift", (r.next() >> 2) | 1);
    }
}

/// Clocks which move on (or, the wall clock, also back) whenever they are read, as
/// they seem to on a machine which is slow or suspended.
fn ticking(r: &mut Rng, p: &mut Plan) {
    if r.chance(0.25) {
        rec!(p, "cfg", "tick", r.logu(1, 4_000_000_000_000));
        if r.chance(0.3) {
            rec!(p, "cfg", "back", 1);
        }
    }
}

/// Many lines of one kind, all with different values of the same length.
fn dense(r: &mut Rng, mtl: bool, kind: u64, n: u64) -> Vec<String> {
    let digits = |r: &mut Rng| format!("{}", 100_000 + r.below(900_000));
    let float = |r: &mut Rng| format!("{}.{:04}", r.below(9) + 1, r.below(10_000));
    let name = |r: &mut Rng| (0..6).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>();
    let mut v: Vec<String> = (0..n)
        .map(|_| match (mtl, kind) {
            (false, 0) => format!("f {} {} {}", digits(r), digits(r), digits(r)),
            (false, 1) => format!("v {} {} {}", float(r), float(r), float(r)),
            (false, 2) => format!("g {}", name(r)),
            (false, 3) => format!("usemtl {}", name(r)),
            (false, _) => format!("f {}/{}/{}", digits(r), digits(r), digits(r)),
            (true, 0) => format!("newmtl {}", name(r)),
            (true, 1) => format!("Kd {} {} {}", float(r), float(r), float(r)),
            (true, 2) => format!("map_Kd {}.png", name(r)),
            (true, 3) => format!("map_Kd -s {} {} -texres {} a", float(r), float(r), digits(r)),
            (true, _) => format!("newmtl {}\nNs {}", name(r), float(r)),
        })
        .collect();
    if mtl {
        v.insert(0, "newmtl a".into());
    } else {
        v.push("f 1 2 3".into());
    }
    v.iter().flat_map(|l| l.split('\n').map(str::to_string).collect::<Vec<_>>()).collect()
}

/// Documents for a run; some are twins of others. Returns how many.
fn docs(r: &mut Rng, p: &mut Plan, max: u64, noisy: f64, bad: f64) -> usize {
    let n = r.below(max) + 1;
    if r.chance(if p.prop == "C07" { 0.01 } else { 0.002 }) {
        let (mtl, kind, k) = (r.chance(0.4), r.below(5), r.logu(60, 400));
        for id in 0..n as usize {
            let l = dense(r, mtl, kind, k);
            put_doc(p, id, mtl, true, &l, 1);
        }
        return n as usize;
    }
    let mut all: Vec<(bool, bool, Vec<String>, u64)> = Vec::new();
    for id in 0..n as usize {
        if id > 0 && r.chance(0.4) {
            let (m, nl, l, k) = r.pick(&all).clone();
            let l = twin(r, &l);
            put_doc(p, id, m, nl, &l, k);
            all.push((m, nl, l, k));
            continue;
        }
        let mtl = r.chance(0.4);
        let st = Style::draw(r, mtl);
        let st = if r.chance(noisy) { st.noisy(r) } else { st };
        let mut st = st.quirky(r);
        if r.chance(0.006) {
            st.long = r.logu(50, 500);
        }
        let k = doc_len(r);
        let mut l = document(r, &st, k);
        if r.chance(bad) {
            let b = if mtl { r.pick(&BAD_MTL[..]) } else { r.pick(&BAD_OBJ[..]) }.to_string();
            let at = r.below(l.len() as u64 + 1) as usize;
            l.insert(at, b);
        }
        if r.chance(0.12) {
            mutate(r, &mut l, mtl);
        }
        let nl = r.chance(0.8);
        // Rarely a text as large as real ones are.
        let huge = r.chance(if p.prop == "C08" { 0.002 } else { 0.0006 });
        let k = if st.long > 0 {
            1
        } else if huge {
            r.logu(300, if p.prop == "C08" { 8_000 } else { 3_000 })
        } else {
            times(r, 0.003, 300)
        };
        if k > 1 {
            l.truncate(20);
            l = l.iter().map(|l| varied(r, l, mtl, "%N")).collect();
        }
        put_doc(p, id, mtl, nl, &l, k);
        all.push((mtl, nl, l, k));
    }
    n as usize
}

/// Logger behaviour for one operation.
fn acts(r: &mut Rng, p: &mut Plan, id: i64, ndocs: usize, panic: bool) {
    let n = r.below(4) + 1;
    let deep = r.chance(0.25);
    for _ in 0..n {
        let at = r.below(6);
        let depth = if deep { r.below(3) } else { 0 };
        match r.below(6) {
            0 | 1 => rec!(p, "la", id, at, "stall", r.below(5) + 1, depth),
            2 => rec!(p, "la", id, at, "sleep", r.logu(10, 2_000_000_000), depth),
            3 => rec!(p, "la", id, at, "level", r.below(6), depth),
            _ => rec!(p, "la", id, at, "reenter", r.below(ndocs as u64), depth),
        }
    }
    if panic {
        let depth = if deep { r.below(3) } else { 0 };
        rec!(p, "la", id, r.below(4), "panic", 0, depth);
    }
}

pub fn plan(prop: &str, seed: u64, idx: u64) -> Plan {
    let tag = prop.bytes().fold(0u64, |a, b| a * 256 + b as u64);
    let mut r = Rng::new(crate::rng::mix(seed ^ crate::rng::mix(tag)) ^ idx.wrapping_mul(0x9E37_79B9));
    let r = &mut r;
    let mut p = Plan::new(prop);
    match prop {
        "C01" | "C04" | "C05" => storage(r, &mut p),
        "C02" | "C03" => cut(r, &mut p),
        "C13" => writers(r, &mut p),
        "C17" => follow(r, &mut p),
        _ => {
            threads(r, &mut p);
            let large = p.all("doc").any(|d| d.i(3) > 300);
            if large {
                // Each load takes long: only a few of them.
                let mut n = 0;
                p.recs.retain(|x| {
                    n += (x.k == "op") as u64;
                    x.k != "op" || n <= 8
                });
            }
        }
    }
    p
}

fn threads(r: &mut Rng, p: &mut Plan) {
    let prop = p.prop.clone();
    surroundings(r, p);
    let op_id = std::cell::Cell::new(0i64);
    let next = || {
        op_id.set(op_id.get() + 1);
        op_id.get()
    };
    match prop.as_str() {
        "C06" => {
            let most = if r.chance(0.2) { 5 } else { 2 };
            let t = crowd(r, 0.03).unwrap_or(2 + r.below(most));
            rec!(p, "cfg", "threads", t);
            let n = docs(r, p, 3, 0.3, 0.15);
            respawn(r, p);
            for i in 0..t {
                for _ in 0..r.below(if t > 8 { 2 } else { 4 }) + 1 {
                    match r.below(8) {
                        0 => rec!(p, "op", next(), i, "keep", r.below(n as u64), r.below(4)),
                        1 => rec!(p, "op", next(), i, "take", 0, r.below(4)),
                        2 => rec!(p, "op", next(), i, "look", 0, r.below(4)),
                        _ => rec!(p, "op", next(), i, "load", r.below(n as u64), 0),
                    }
                }
            }
            endings(r, p, t, n, 0.08, &next);
            segs(r, p, t);
        }
        "C07" => {
            let t = 1 + r.below(2) * r.below(2);
            rec!(p, "cfg", "threads", t);
            if r.chance(0.0015) {
                // One small document, very often.
                let mtl = r.chance(0.4);
                let st = Style::draw(r, mtl);
                let st = if r.chance(0.5) { st.noisy(r) } else { st };
                let l = document(r, &st, 1);
                put_doc(p, 0, st.mtl, true, &l, 1);
                for k in [1, 3, 256, 66_000] {
                    rec!(p, "op", next(), 0, "repeat", 0, k);
                }
                return;
            }
            let n = docs(r, p, 4, 0.3, 0.3);
            respawn(r, p);
            let many = r.chance(0.04);
            for _ in 0..r.below(12) + 2 {
                let i = r.below(t);
                match r.below(14) {
                    0 => rec!(p, "op", next(), i, "clock", r.next() as i64 >> 3),
                    1 => rec!(p, "op", next(), i, "env", r.below(2)),
                    2 => rec!(p, "op", next(), i, "seed", r.next() >> 1),
                    3 => rec!(p, "op", next(), i, "garbage", r.below(256)),
                    4 => rec!(p, "op", next(), i, "level", r.below(6)),
                    5 => rec!(p, "op", next(), i, "repeat", r.below(n as u64), if many { r.logu(12, 1200) } else { r.below(12) }),
                    6 => rec!(p, "op", next(), i, "keep", r.below(n as u64), r.below(4)),
                    7 => rec!(p, "op", next(), i, "take", 0, r.below(4)),
                    _ => rec!(p, "op", next(), i, "load", r.below(n as u64), 0),
                }
            }
            endings(r, p, t, n, 0.08, &next);
            segs(r, p, t);
        }
        "C08" => {
            rec!(p, "cfg", "strict", 1);
            let t = 1 + r.below(2) * r.below(2);
            rec!(p, "cfg", "threads", t);
            if r.chance(0.3) {
                rec!(p, "cfg", "filter", 1 + r.below(2));
            }
            let n = docs(r, p, 3, 0.5, 0.3);
            for _ in 0..r.below(6) + 1 {
                let id = next();
                let many = r.chance(0.03);
                if many {
                    rec!(p, "op", id, r.below(t), "repeat", r.below(n as u64), r.below(300));
                } else {
                    rec!(p, "op", id, r.below(t), "load", r.below(n as u64), 0);
                }
                if r.chance(0.2) {
                    let panic = r.chance(0.1);
                    acts(r, p, id, n, panic);
                }
            }
            segs(r, p, t);
        }
        "C09" => {
            let t = 1 + r.below(4);
            rec!(p, "cfg", "threads", t);
            rec!(p, "cfg", "level", if r.chance(0.85) { r.below(5) + 1 } else { 0 });
            if r.chance(0.2) {
                rec!(p, "cfg", "filter", 1 + r.below(2));
            }
            let n = docs(r, p, 4, 0.9, 0.15);
            for i in 0..t {
                for _ in 0..r.below(4) + 1 {
                    let id = next();
                    rec!(p, "op", id, i, "load", r.below(n as u64), 0);
                    if r.chance(0.8) {
                        acts(r, p, id, n, false);
                    }
                }
            }
            segs(r, p, t);
        }
        "C14" => {
            let t = crowd(r, 0.04).unwrap_or(2 + r.below(4));
            rec!(p, "cfg", "threads", t);
            rec!(p, "cfg", "level", r.below(5) + 1);
            let n = docs(r, p, 4, 1.0, 0.15);
            // Who stalls, and in which of its loads' diagnostics.
            let stalled = 1 + if t > 2 { r.below(t - 2) } else { 0 };
            for i in 0..t {
                let k = r.below(if t > 8 { 2 } else { 4 }) + 1;
                let at = r.below(k);
                for j in 0..k {
                    let id = next();
                    rec!(p, "op", id, i, "load", r.below(n as u64), 0);
                    if i < stalled && j == at {
                        rec!(p, "la", id, r.logu(1, 6) - 1, "hang", 0, if r.chance(0.15) { 1 } else { 0 });
                    }
                    if r.chance(0.4) {
                        let panic = r.chance(0.1);
                        acts(r, p, id, n, panic);
                    }
                }
            }
            segs(r, p, t);
        }
        "C15" => {
            let most = if r.chance(0.3) { 4 } else { 2 };
            let t = 1 + r.below(most);
            rec!(p, "cfg", "threads", t);
            rec!(p, "cfg", "level", if r.chance(0.95) { r.below(5) + 1 } else { 0 });
            let n = docs(r, p, 4, 1.0, 0.15);
            respawn(r, p);
            let many = r.chance(0.05);
            for i in 0..t {
                for _ in 0..r.below(5) + 1 {
                    let id = next();
                    let d = r.below(n as u64);
                    match r.below(10) {
                        0 => rec!(p, "op", id, i, "clock", r.next() as i64 >> 3),
                        1 => rec!(p, "op", id, i, "failalloc", d, r.below(1001)),
                        2 | 3 => rec!(p, "op", id, i, "repeat", d, r.below(if many { 300 } else { 6 })),
                        _ => {
                            rec!(p, "op", id, i, "load", d, 0);
                            if r.chance(0.4) {
                                let panic = r.chance(0.3);
                                acts(r, p, id, n, panic);
                            }
                        }
                    }
                }
            }
            // The level stays: what a load reports depends on it.
            p.recs.retain(|x| !(x.k == "la" && x.s(2) == "level"));
            segs(r, p, t);
        }
        "C16" => {
            // In some runs what is made only once is being made when somebody forks.
            if r.chance(0.3) {
                rec!(p, "cfg", "cold", 1);
            }
            if r.chance(0.3) {
                // All others are at about the same place when one forks.
                let t = crowd(r, 0.05).unwrap_or(3 + r.below(5));
                rec!(p, "cfg", "threads", t);
                let n = docs(r, p, 2, 0.4, 0.05);
                let d = r.below(n as u64);
                let (unit, q) = match r.below(3) {
                    0 => (0, r.logu(10, 40_000)),
                    1 => (1, r.logu(1, 100)),
                    _ => (2, r.logu(1, 400)),
                };
                for i in 1..t {
                    rec!(p, "op", next(), i, "load", d, 0);
                }
                for _ in 0..r.below(8) + 1 {
                    rec!(p, "op", next(), 0, "fork", r.below(n as u64), 0);
                    rec!(p, "op", next(), 0, "yield", 0, 0);
                }
                for i in 1..t {
                    for _ in 0..2 {
                        rec!(p, "op", next(), i, "load", d, 0);
                    }
                }
                let step = r.logu(1, 2000);
                for k in 0..8 {
                    for i in 1..t {
                        rec!(p, "seg", i, unit, if k == 0 || unit > 0 { q } else { step });
                    }
                    rec!(p, "seg", 0, 0, 400_000);
                }
                return;
            }
            let t = 2 + r.below(3);
            rec!(p, "cfg", "threads", t);
            // Some fork in the logger, so within a load.
            let within = r.chance(0.25);
            if within {
                rec!(p, "cfg", "level", r.below(5) + 1);
            }
            let n = docs(r, p, 4, if within { 0.9 } else { 0.4 }, 0.15);
            for i in 0..t {
                for _ in 0..r.below(4) + 1 {
                    let id = next();
                    let d = r.below(n as u64);
                    if r.below(if i == 0 { 2 } else { 6 }) == 0 {
                        rec!(p, "op", id, i, "fork", d, 0);
                    } else {
                        rec!(p, "op", id, i, "load", d, 0);
                        if within && r.chance(0.4) {
                            rec!(p, "la", id, r.below(5), "fork", 0, if r.chance(0.15) { 1 } else { 0 });
                        }
                        if r.chance(0.3) {
                            let panic = r.chance(0.1);
                            acts(r, p, id, n, panic);
                        }
                    }
                }
            }
            segs(r, p, t);
        }
        "C10" => {
            let swarm = r.chance(0.3);
            let t = crowd(r, 0.02).unwrap_or(1 + r.below(if swarm { 2 } else { 4 }));
            rec!(p, "cfg", "threads", t);
            rec!(p, "cfg", "level", r.below(5) + 1);
            let n = docs(r, p, 4, if swarm { 1.0 } else { 0.8 }, 0.15);
            respawn(r, p);
            // Destructors of the application load something while a load is unwound.
            let amid = r.chance(0.25);
            endings(r, p, t, n, 0.08, &next);
            for i in 0..t {
                let most = match swarm {
                    _ if t > 8 => 2,
                    true => r.logu(6, 40),
                    false => 4,
                };
                for _ in 0..r.below(most) + 1 {
                    let id = next();
                    let d = r.below(n as u64);
                    match r.below(if swarm { 4 } else { 5 }) {
                        0 | 1 => {
                            rec!(p, "op", id, i, "load", d, 0);
                            if swarm && r.chance(0.7) {
                                rec!(p, "la", id, r.below(3), "panic", 0, 0);
                            } else {
                                acts(r, p, id, n, true);
                            }
                        }
                        2 => {
                            let pos = r.below(1000) as i64;
                            rec!(p, "op", id, i, "failalloc", d, if r.chance(0.4) { -pos - 1 } else { pos });
                        }
                        _ => rec!(p, "op", id, i, "load", d, 0),
                    }
                    if amid && r.chance(0.6) {
                        rec!(p, "la", id, 0, "amid", r.below(n as u64), 0);
                    }
                }
                if r.chance(0.06) {
                    let d = r.below(n as u64);
                    let start = if r.chance(0.5) { 0 } else { r.logu(1, 1000) as i64 };
                    rec!(p, "op", next(), i, "sweep", d, start);
                    rec!(p, "op", next(), i, "load", d, 0);
                }
                if t <= 8 && r.chance(0.008) {
                    // Very often.
                    let (d, pos) = (r.below(n as u64), r.below(1000) as i64);
                    let how = if r.chance(0.5) { -1 - r.below(3) as i64 } else { pos };
                    rec!(p, "op", next(), i, "swarm", d, r.logu(50, 5000), how);
                    rec!(p, "op", next(), i, "load", d, 0);
                }
                if r.chance(0.05) {
                    // Abandoned at the same place again and again.
                    let (d, pos) = (r.below(n as u64), r.below(1000) as i64);
                    for _ in 0..r.logu(8, 80) {
                        rec!(p, "op", next(), i, "failalloc", d, pos);
                    }
                    rec!(p, "op", next(), i, "load", d, 0);
                }
                for _ in 0..if swarm { 3 } else { 1 } {
                    rec!(p, "op", next(), i, "load", r.below(n as u64), 0);
                }
            }
            segs(r, p, t);
        }
        "C11" => {
            let t = 1 + r.below(2) * r.below(3);
            rec!(p, "cfg", "threads", t);
            let n = docs(r, p, 3, 0.4, 0.15);
            for i in 0..t {
                if r.chance(0.08) {
                    let start = if r.chance(0.5) { 0 } else { r.logu(1, 1000) as i64 };
                    rec!(p, "op", next(), i, "sweep", r.below(n as u64), if r.chance(0.2) { -start } else { start });
                }
                for _ in 0..r.below(16) + 4 {
                    let pos = if r.chance(0.1) { [0, 1000, 999, 1][r.below(4) as usize] } else { r.below(1001) as i64 };
                    let d = r.below(n as u64);
                    rec!(p, "op", next(), i, "failalloc", d, if r.chance(0.35) { -pos } else { pos });
                    if r.chance(0.15) {
                        rec!(p, "op", next(), i, "load", d, 0);
                    }
                }
            }
            segs(r, p, t);
        }
        _ => {
            // C12
            let t = 1 + r.below(3);
            let rounds = 8 + r.below(9);
            rec!(p, "cfg", "threads", t);
            if r.chance(0.25) {
                rec!(p, "cfg", "respawn", 1);
            }
            rec!(p, "cfg", "rounds", rounds);
            rec!(p, "cfg", "level", r.below(6));
            let n = r.below(3) + 1;
            for id in 0..n as usize {
                let mtl = r.chance(0.4);
                let st = Style::draw(r, mtl);
                let st = if r.chance(0.4) { st.noisy(r) } else { st };
                let st = st.quirky(r);
                let k = r.logu(2, 14);
                let mut l: Vec<String> = document(r, &st, k).iter().map(|l| varied(r, l, mtl, "%R")).collect();
                if r.chance(0.2) {
                    let b = if mtl { r.pick(&BAD_MTL[..]) } else { r.pick(&BAD_OBJ[..]) }.to_string();
                    let at = r.below(l.len() as u64 + 1) as usize;
                    l.insert(at, b);
                }
                put_doc(p, id, mtl, true, &l, 1);
            }
            for i in 0..t {
                for _ in 0..r.below(3) + 1 {
                    let id = next();
                    let d = r.below(n);
                    match r.below(9) {
                        0 => {
                            rec!(p, "op", id, i, "load", d, 0);
                            acts(r, p, id, n as usize, true);
                        }
                        8 => rec!(p, "op", id, i, "repeat", d, r.logu(1, 60)),
                        1 if r.chance(0.1) => rec!(p, "op", id, i, "sweep", d, r.logu(1, 300) - 1),
                        1 => rec!(p, "op", id, i, "failalloc", d, r.below(1001)),
                        2 => rec!(p, "op", id, i, "keep", d, r.below(4)),
                        3 => rec!(p, "op", id, i, "take", 0, r.below(4)),
                        _ => rec!(p, "op", id, i, "load", d, 0),
                    }
                }
                rec!(p, "op", next(), i, "load", r.below(n), 0);
            }
            segs(r, p, t);
        }
    }
}

/// A writer and readers of one file.
fn follow(r: &mut Rng, p: &mut Plan) {
    let mtl = r.chance(0.4);
    let mut st = stored(r, p, mtl);
    st.long = st.long.min(300);
    let k = doc_len(r) + 2;
    let mut lines = document(r, &st, k);
    let gens = 1 + if r.chance(0.5) { 1 + r.below(2) } else { 0 };
    for g in 0..gens {
        for l in &lines {
            rec!(p, "w", g, l);
        }
        if r.chance(0.25) {
            lines = document(r, &st, k);
            continue;
        }
        for _ in 0..r.below(3) + 1 {
            lines = twin(r, &lines);
        }
        if r.chance(0.4) {
            let more = r.below(k) + 1;
            lines.extend(document(r, &st, more));
        }
        if r.chance(0.2) && lines.len() > 2 {
            lines.remove(1 + r.below(lines.len() as u64 - 2) as usize);
        }
    }
    let readers = 1 + r.below(3);
    rec!(p, "cfg", "threads", readers + 1);
    for _ in 0..r.below(12) + 3 {
        match r.below(8) {
            0..=2 => rec!(p, "op", 0, "append", r.logu(1, 300)),
            3..=5 => rec!(p, "op", 0, "line", 0),
            _ if gens == 1 => rec!(p, "op", 0, "append", r.logu(1, 30)),
            k => {
                if r.chance(0.5) {
                    rec!(p, "op", 0, "rest", 0);
                }
                rec!(p, "op", 0, if k == 6 { "trunc" } else { "replace" }, r.below(1001));
                if r.chance(0.5) {
                    rec!(p, "op", 0, "append", r.logu(50, 3000));
                }
            }
        }
    }
    for i in 1..=readers {
        let slow = gens > 1 && r.chance(0.6);
        for _ in 0..r.below(if slow { 14 } else { 8 }) + 1 {
            match if slow { 3 + r.below(5) } else { r.below(10) } {
                0..=3 => rec!(p, "op", i, "read", 0),
                4..=6 => rec!(p, "op", i, "chunk", r.logu(1, 300)),
                7 => rec!(p, "op", i, "finish", r.logu(10, 300)),
                _ => rec!(p, "op", i, "delta", 0),
            }
        }
    }
    segs(r, p, readers + 1);
}

/// Threads which load something when they end.
fn endings(r: &mut Rng, p: &mut Plan, t: u64, n: usize, chance: f64, next: &dyn Fn() -> i64) {
    if r.chance(chance) {
        for i in 0..t {
            for _ in 0..r.below(3) {
                rec!(p, "op", next(), i, "ending", r.below(n as u64), 0);
            }
        }
    }
}

/// Two rounds, the second on new threads.
fn respawn(r: &mut Rng, p: &mut Plan) {
    if r.chance(0.15) {
        rec!(p, "cfg", "rounds", 2);
        rec!(p, "cfg", "respawn", 1);
    }
}

/// Makes a line different in every round or repetition, in a name or a number.
fn varied(r: &mut Rng, l: &str, mtl: bool, v: &str) -> String {
    let c = refmodel::class(l, mtl, true);
    let t = l.trim_end();
    let kw = t.split_whitespace().next().unwrap_or("").to_ascii_lowercase();
    match kw.as_str() {
        "g" | "usemtl" | "mtllib" | "newmtl" | "o" | "usemap" | "maplib" | "shadow_obj" | "trace_obj" => format!("{t}{v}"),
        "v" | "vn" | "vt" | "ka" | "kd" | "ks" if c == Class::Clean && r.chance(0.7) => {
            if let Some(i) = t.rfind(['.']) {
                // Digits after a point.
                format!("{}.{v}{}", &t[..i], &t[i + 1..])
            } else {
                t.into()
            }
        }
        "f" | "l" | "p" if r.chance(0.7) => format!("{t} {v}"),
        _ if c == Class::Inert => format!("{t} {v}"),
        _ => l.into(),
    }
}

// ------------------------------------------------------------ storage runs

/// Makes a document long: its lines, each a little different every time, again and
/// again. Returns how often.
fn enlarge(r: &mut Rng, p: &mut Plan, lines: &mut [String], mtl: bool, chance: f64) -> u64 {
    let k = times(r, chance, 60_000 / lines.len().max(1) as u64);
    if k > 1 {
        for l in lines.iter_mut() {
            *l = varied(r, l, mtl, "%N");
        }
        rec!(p, "cfg", "times", k);
    }
    k
}

/// What every run with simulated storage has.
fn stored(r: &mut Rng, p: &mut Plan, mtl: bool) -> Style {
    rec!(p, "cfg", "mtl", mtl as i64);
    rec!(p, "cfg", "hash", r.next() >> 1);
    rec!(p, "cfg", "decode", r.below(2));
    rec!(p, "cfg", "stack", 256);
    if r.chance(0.3) {
        rec!(p, "cfg", "crlf", 1);
    }
    ticking(r, p);
    let mut st = Style::draw(r, mtl);
    if r.chance(0.3) {
        st = st.foreign();
    }
    if r.chance(0.01) {
        st.long = if r.chance(0.2) { r.logu(1000, 3000) } else { r.logu(50, 1000) };
    }
    st
}

fn storage(r: &mut Rng, p: &mut Plan) {
    let mtl = match p.prop.as_str() {
        "C04" => false,
        "C05" => true,
        _ => r.chance(0.5),
    };
    let c01 = p.prop == "C01";
    let st = stored(r, p, mtl);
    let st = if c01 && r.chance(0.3) { st.noisy(r) } else { st };
    let st = if c01 { st.quirky(r) } else { st };
    let big = c01 && r.chance(0.005);
    let n = if big { 400 } else { doc_len(r) };
    let mut lines = document(r, &st, n);
    let k = if big {
        let k = r.logu(2, 60);
        rec!(p, "cfg", "times", k);
        k
    } else if st.long == 0 {
        enlarge(r, p, &mut lines, mtl, 0.003)
    } else {
        1
    };
    for l in &lines {
        rec!(p, "w", l);
    }
    let len = lines.iter().map(|l| l.len() as u64 + 1).sum::<u64>().max(1) * k;
    if r.chance(0.4) && k == 1 {
        // An older version of the file.
        let old = if r.chance(0.5) {
            twin(r, &lines)
        } else {
            let n = doc_len(r);
            document(r, &st, n)
        };
        for l in &old {
            rec!(p, "old", l);
        }
    }
    let sector = [1u64, 8, 16, 64, 512][r.below(5) as usize];
    let at = |r: &mut Rng| if sector > 1 && r.chance(0.6) { r.below(len) / sector * sector } else { r.below(len + 1) };
    let size = |r: &mut Rng| if sector > 1 && r.chance(0.6) { sector * (1 + r.below(3)) } else { r.logu(1, 40) };
    // A storm of damage now and then; and junk of one kind only, however much.
    let events = match r.below(50) {
        0 if k == 1 => r.logu(10, 150),
        1..=5 => 0,
        _ => r.below(4) + 1,
    };
    let only = if events > 4 && r.chance(0.7) { Some(r.pick(&[2, 9, 12, 13, 13]).to_owned()) } else { None };
    let junk = r.below(5);
    for _ in 0..events {
        match only.unwrap_or_else(|| r.below(16)) {
            0 | 1 => rec!(p, "ev", "flip", at(r), r.below(8)),
            2 => rec!(p, "ev", "zero", at(r), size(r)),
            3 => rec!(p, "ev", "stale", at(r), size(r)),
            4 => rec!(p, "ev", "trunc", at(r)),
            5 => rec!(p, "ev", "dup", at(r), size(r)),
            6 => rec!(p, "ev", "drop", at(r), size(r)),
            7 => rec!(p, "ev", "swap", at(r), at(r), size(r)),
            8 => rec!(p, "ev", "mix", at(r)),
            9 | 10 => rec!(p, "ev", "insert", at(r), foreign_bytes(r, mtl)),
            11 => rec!(p, "ev", "raw", at(r), (0..r.below(6) + 1).map(|_| r.below(256) as u8 as char).collect::<String>()),
            12 if r.chance(0.3) => {
                let wide = [b'\n', b'\r', b' ', b'\t', 0, b'#', 0xFF, b'\n'];
                let dear = b"0.9/-f\\+eE\"~";
                let (byte, most) = if r.chance(0.6) { (*r.pick(&wide), 60_000) } else { (*r.pick(&dear[..]), 1500) };
                rec!(p, "ev", "fill", at(r), r.logu(1, most), byte as i64);
            }
            12 => rec!(p, "ev", "join", r.below(n * k + 1)),
            13 => rec!(p, "ev", "line", r.below(n * k + 1), if mtl { *r.pick(&FOREIGN_MTL) } else { *r.pick(&FOREIGN_OBJ) }),
            _ => {
                let l = match if only.is_some() { junk } else { r.below(5) } {
                    0 => if mtl { r.pick(&BAD_MTL[..]) } else { r.pick(&BAD_OBJ[..]) }.to_string(),
                    1 => soup(r, mtl),
                    2 => if mtl { r.pick(&QUIRK_MTL[..]) } else { r.pick(&QUIRK_OBJ[..]) }.to_string(),
                    3 => {
                        let k = r.below(NOISE);
                        noise(r, mtl, k, false)
                    }
                    _ => if mtl { r.pick(&FOREIGN_MTL[..]) } else { r.pick(&FOREIGN_OBJ[..]) }.to_string(),
                };
                rec!(p, "ev", "line", r.below(n * k + 1), l)
            }
        }
    }
}

/// Text which ends up in files by mistake, chosen to sit on the edges of what a
/// parser of text may assume.
fn foreign_bytes(r: &mut Rng, mtl: bool) -> String {
    const T: [&str; 48] = [
        "\u{1A}", "\u{1B}[0m", "\u{7F}", "\u{8}", "\u{200B}", "\u{4}", "\u{1}", "\u{2029}",
        "\u{212A}d 1 1 1", "\u{212A}", "\u{17F}", "\u{130}", "ß", "\u{FEFF}", "\0", "\0\0\0\0", "\u{FFFD}", "🦀",
        "e\u{301}", "\u{A0}", "\u{2028}", "\u{85}", "\u{0B}", "\u{0C}", "\r", "\n", "\r\n", "\t", "/", "//", "#", "-",
        "+", ".", "e", "1e", "--1", "1.2.3", "99999999999999999999", "1e999999999", "-1e-999999", "0x10", "NaN", "inf",
        "<<<<<<< HEAD\n", "%PDF-1.4\n", "\"", "\\",
    ];
    let mut s = String::new();
    for _ in 0..=r.below(2) {
        match r.below(8) {
            0 => {
                let kw = if mtl { r.pick(&MTL[..]) } else { r.pick(&OBJ[..]) };
                s.push_str(kw);
                if r.chance(0.7) {
                    s.push(' ');
                }
            }
            1 => {
                // A keyword in which one letter is something which looks like it.
                let kw = if mtl { r.pick(&MTL[..]) } else { r.pick(&OBJ[..]) };
                let c: Vec<char> = kw.chars().collect();
                let i = r.below(c.len() as u64) as usize;
                for (j, x) in c.iter().enumerate() {
                    s.push(if i == j {
                        match x.to_ascii_lowercase() {
                            'k' => '\u{212A}',
                            's' => '\u{17F}',
                            'i' => '\u{131}',
                            'a' => 'а',
                            _ => 'ｖ',
                        }
                    } else {
                        *x
                    });
                }
                s.push_str(" 1 1 1\n");
            }
            2 => {
                let most = if r.chance(0.03) { 4000 } else { 300 };
                let n = r.logu(1, most);
                s.push_str(&r.pick(&["1 ", "/", "9", " ", "é", "-", "v ", "#", "a"]).repeat(n as usize));
            }
            _ => s.push_str(r.pick(&T)),
        }
    }
    s
}

fn cut(r: &mut Rng, p: &mut Plan) {
    let mtl = p.prop == "C03";
    let st = stored(r, p, mtl);
    let generations = 1 + if r.chance(0.25) { r.below(3) } else { 0 };
    let n = doc_len(r);
    let mut lines = document(r, &st, n + generations);
    if st.long == 0 && generations == 1 {
        enlarge(r, p, &mut lines, mtl, 0.003);
    }
    let per = lines.len() as u64 / generations;
    for (i, l) in lines.iter().enumerate() {
        rec!(p, "w", l);
        if r.chance(0.08) {
            rec!(p, "flush", r.below(1001));
        }
        if r.chance(0.05) {
            rec!(p, "sync");
        }
        if generations > 1 && i as u64 % per == per - 1 && r.chance(0.8) {
            rec!(p, "crash", r.below(1001));
        }
    }
    // Where the last crash leaves the file.
    match r.below(9) {
        // At the end of a statement, without or with its line end.
        0 => rec!(p, "cutline", r.below(lines.len() as u64 + 1), 0),
        1 => rec!(p, "cutline", r.below(lines.len() as u64 + 1), 1 + r.below(2)),
        // A few bytes before the end of a statement.
        2 | 3 => rec!(p, "cutline", r.below(lines.len() as u64 + 1), -(r.below(6) as i64) - 1),
        _ => rec!(p, "cut", r.below(100_000)),
    }
}

fn writers(r: &mut Rng, p: &mut Plan) {
    let mtl = r.chance(0.4);
    let st = stored(r, p, mtl);
    // How the writers' names look, and whether there is very much of everything.
    let look = r.below(7);
    let many = r.chance(0.02);
    let owner = |r: &mut Rng, w: u64| -> String {
        if r.chance(0.2) {
            return "shared".into();
        }
        match look {
            0 => format!("{}{w}", "writer_with_a_long_name_".repeat(4)),
            1 => format!("part{}", "1".repeat(w as usize + 1)),
            2 => ["Arm", "arm", "ARM", "aRM", "arM", "Arms", "arms"][w as usize % 7].to_string() + &"x".repeat(w as usize / 7),
            3 => format!("left wing {w}"),
            4 => format!("{w}"),
            5 => ["default", "Default", "default1", "defaul", "_default", "default x", "d"][w as usize % 7].to_string()
                + &"y".repeat(w as usize / 7),
            _ => format!("writer{w}"),
        }
    };
    let times = if r.chance(0.003) { r.logu(10, 300) } else { 1 };
    if times > 1 {
        rec!(p, "cfg", "times", times);
    }
    let n = if many { r.logu(7, 40) } else { 2 + r.below(5) };
    let mut total = 0;
    for w in 0..n {
        let blocks = r.below(5) + 1;
        let own = owner(r, w);
        let mut seq = 0;
        for b in 0..blocks {
            total += 1;
            if mtl {
                let name = if r.chance(0.3) { own.clone() } else { format!("{own}_{b}") };
                rec!(p, "w", w, b, format!("newmtl {name}"));
                for _ in 0..r.below(6) {
                    let k = MTL[1 + r.below(22) as usize];
                    let s = named(r, &st, k);
                    rec!(p, "w", w, b, dress(r, &st, s));
                }
            } else {
                // A block selects its group, sometimes more than one, and its
                // smoothing group, in either order.
                let also = if r.chance(0.15) { format!(" {}", owner(r, w)) } else { String::new() };
                let mut start = vec![format!("g {own}{also}"), format!("s {}", w * 3 + r.below(2))];
                if r.chance(0.25) {
                    start.swap(0, 1);
                }
                if r.chance(0.1) {
                    let name = word(r, &st);
                    start.insert(r.below(3) as usize, format!("o {name}"));
                }
                for l in start {
                    rec!(p, "w", w, b, l);
                }
                for _ in 0..r.below(7) + 1 {
                    seq += 1;
                    let tag = (w + 1) * 1000 + seq;
                    let s = match r.below(12) {
                        0 => format!("v {tag} {} {}", number(r), number(r)),
                        1 => format!("vt {tag} {}", number(r)),
                        2 => format!("vn {tag} {} {}", number(r), number(r)),
                        3 => format!("l {tag} {}", index(r)),
                        4 => format!("p {tag} {}", index(r)),
                        5 => format!("usemtl mat{tag}"),
                        6 => named(r, &st, *r.clone().pick(&["bevel", "c_interp", "d_interp", "lod", "usemap"])),
                        7 if r.chance(0.3) => "mtllib common.mtl".into(),
                        7 => format!("mtllib lib{tag}.mtl"),
                        8 => format!("s {}", r.below(9)),
                        _ => format!("f {tag}/{}/{} {} {}", index(r), index(r), index(r), index(r)),
                    };
                    rec!(p, "w", w, b, dress(r, &st, s));
                }
            }
        }
    }
    for _ in 0..total + r.below(4) {
        let fault = match r.below(14) {
            0 => 1,
            1 => 2,
            2 => 3,
            _ => 0,
        };
        rec!(p, "turn", r.below(n), fault as i64);
    }
    if times > 1 && r.chance(0.6) {
        // Other names and numbers each time.
        for x in &mut p.recs {
            if x.k == "w" {
                let l = varied(r, x.s(2), mtl, "%N");
                x.a[2] = crate::plan::Arg::S(l);
            }
        }
    }
}

pub fn kind(mtl: bool) -> Kind {
    if mtl {
        Kind::Mtl
    } else {
        Kind::Obj
    }
}
