//! A run is described completely by a plan: a list of records. The generator makes
//! plans from the seed, the executors run them (any list of records is runnable, so
//! that records can be dropped), and the minimiser and the replay files work on them.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    I(i64),
    S(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub k: String,
    pub a: Vec<Arg>,
}

impl Rec {
    pub fn i(&self, n: usize) -> i64 {
        match self.a.get(n) {
            Some(Arg::I(v)) => *v,
            _ => 0,
        }
    }
    pub fn u(&self, n: usize, max: usize) -> usize {
        self.i(n).clamp(0, max as i64) as usize
    }
    pub fn s(&self, n: usize) -> &str {
        match self.a.get(n) {
            Some(Arg::S(v)) => v,
            _ => "",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    /// Which executor and oracle: the property id.
    pub prop: String,
    pub recs: Vec<Rec>,
}

pub trait IntoArg {
    fn arg(self) -> Arg;
}
impl IntoArg for i64 {
    fn arg(self) -> Arg {
        Arg::I(self)
    }
}
impl IntoArg for u64 {
    fn arg(self) -> Arg {
        Arg::I(self as i64)
    }
}
impl IntoArg for usize {
    fn arg(self) -> Arg {
        Arg::I(self as i64)
    }
}
impl IntoArg for i32 {
    fn arg(self) -> Arg {
        Arg::I(self as i64)
    }
}
impl IntoArg for &str {
    fn arg(self) -> Arg {
        Arg::S(self.to_string())
    }
}
impl IntoArg for &String {
    fn arg(self) -> Arg {
        Arg::S(self.clone())
    }
}
impl IntoArg for String {
    fn arg(self) -> Arg {
        Arg::S(self)
    }
}

#[macro_export]
macro_rules! rec {
    ($p:expr, $k:expr $(, $a:expr)*) => {
        $p.recs.push($crate::plan::Rec { k: $k.to_string(), a: vec![$($crate::plan::IntoArg::arg($a)),*] })
    };
}

impl Plan {
    pub fn new(prop: &str) -> Self {
        Plan { prop: prop.into(), recs: Vec::new() }
    }
    pub fn all<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a Rec> {
        self.recs.iter().filter(move |r| r.k == k)
    }
    /// Value of the last `cfg NAME value` record.
    pub fn cfg(&self, name: &str, default: i64) -> i64 {
        self.all("cfg").filter(|r| r.s(0) == name).last().map_or(default, |r| r.i(1))
    }
    pub fn text(&self) -> String {
        let mut o = format!("prop {}\n", self.prop);
        for r in &self.recs {
            o.push_str(&r.k);
            for a in &r.a {
                match a {
                    Arg::I(v) => write!(o, " {v}").unwrap(),
                    Arg::S(s) => {
                        o.push_str(" \"");
                        for c in s.chars() {
                            match c {
                                '"' => o.push_str("\\\""),
                                '\\' => o.push_str("\\\\"),
                                c if (' '..='~').contains(&c) => o.push(c),
                                c => write!(o, "\\u{{{:x}}}", c as u32).unwrap(),
                            }
                        }
                        o.push('"');
                    }
                }
            }
            o.push('\n');
        }
        o
    }
    /// Reads what `text` wrote; lines starting with '#' are comments.
    pub fn parse(t: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        for (n, line) in t.lines().enumerate() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let bad = |m: &str| format!("line {}: {m}", n + 1);
            let (k, mut rest) = line.split_once(' ').unwrap_or((line, ""));
            if k == "prop" {
                p.prop = rest.trim().into();
                continue;
            }
            let mut a = Vec::new();
            loop {
                rest = rest.trim_start();
                if rest.is_empty() {
                    break;
                }
                if let Some(r) = rest.strip_prefix('"') {
                    let mut s = String::new();
                    let mut it = r.char_indices();
                    let end = loop {
                        let (i, c) = it.next().ok_or_else(|| bad("open string"))?;
                        match c {
                            '"' => break i,
                            '\\' => match it.next().ok_or_else(|| bad("escape"))?.1 {
                                'u' => {
                                    let h: String =
                                        it.by_ref().map(|x| x.1).skip(1).take_while(|c| *c != '}').collect();
                                    let v = u32::from_str_radix(&h, 16).map_err(|e| bad(&e.to_string()))?;
                                    s.push(char::from_u32(v).ok_or_else(|| bad("char"))?);
                                }
                                c => s.push(c),
                            },
                            c => s.push(c),
                        }
                    };
                    a.push(Arg::S(s));
                    rest = &r[end + 1..];
                } else {
                    let (w, r) = rest.split_once(' ').unwrap_or((rest, ""));
                    a.push(Arg::I(w.parse().map_err(|_| bad("integer"))?));
                    rest = r;
                }
            }
            p.recs.push(Rec { k: k.into(), a });
        }
        Ok(p)
    }
}
