//! The part of clap 3 that a program with a few options wants.
use std::ffi::{OsStr, OsString};
pub use clap_derive::{Args, Parser, Subcommand, ValueEnum};

#[derive(Clone, Copy, Debug)]
pub enum ArgAction {
    Set,
    Append,
    SetTrue,
    Count,
}

pub struct Spec {
    pub key: &'static str,
    pub long: Option<&'static str>,
    pub short: Option<char>,
    pub flag: bool,
    /// a list of positional arguments
    pub many: bool,
    /// the subcommand: takes the rest
    pub sub: bool,
}
pub fn subcommand<T: Parser>(m: &Matches, key: &str) -> T {
    T::from_args(m.all(key))
}
pub fn no_subcommand(name: Option<&OsString>) -> ! {
    usage(format!("no such subcommand: {name:?}"))
}
pub trait Parser: Sized {
    fn from_args(args: Vec<OsString>) -> Self;
    fn parse() -> Self {
        Self::from_args(std::env::args_os().skip(1).collect())
    }
    fn parse_from<I: IntoIterator<Item = T>, T: Into<OsString>>(it: I) -> Self {
        Self::from_args(it.into_iter().skip(1).map(|x| x.into()).collect())
    }
}
pub trait ValueEnum: Sized {
    fn from_text(s: &str) -> Option<Self>;
}
pub use ValueEnum as ArgEnum;
pub trait Value: Sized {
    fn from_os(s: &OsStr) -> Option<Self>;
}
impl Value for std::path::PathBuf {
    fn from_os(s: &OsStr) -> Option<Self> {
        Some(s.into())
    }
}
impl Value for OsString {
    fn from_os(s: &OsStr) -> Option<Self> {
        Some(s.into())
    }
}
macro_rules! text {
    ($($t:ty),*) => {$(impl Value for $t {
        fn from_os(s: &OsStr) -> Option<Self> {
            s.to_str()?.parse().ok()
        }
    })*};
}
text!(String, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, bool);

fn usage(what: String) -> ! {
    eprintln!("error: {what}");
    std::process::exit(2)
}
pub fn value<T: Value>(key: &str, v: &OsStr) -> T {
    T::from_os(v).unwrap_or_else(|| usage(format!("invalid value {v:?} for {key}")))
}
pub fn value_enum<T: ValueEnum>(key: &str, v: &OsStr) -> T {
    v.to_str().and_then(T::from_text).unwrap_or_else(|| usage(format!("invalid value {v:?} for {key}")))
}
pub struct Matches(Vec<(&'static str, Option<OsString>)>);
impl Matches {
    pub fn parse(specs: &[Spec], args: Vec<OsString>) -> Matches {
        let mut out = vec![];
        let mut positional: Vec<&Spec> = specs.iter().filter(|s| s.long.is_none() && s.short.is_none()).collect();
        let mut it = args.into_iter();
        while let Some(a) = it.next() {
            let s = a.to_str().unwrap_or("").to_string();
            if let Some(l) = s.strip_prefix("--").filter(|l| !l.is_empty()) {
                let (l, v) = match l.split_once('=') {
                    Some((l, v)) => (l.to_string(), Some(OsString::from(v))),
                    None => (l.to_string(), None),
                };
                let Some(spec) = specs.iter().find(|s| s.long == Some(&l)) else { usage(format!("unexpected argument --{l}")) };
                if spec.flag {
                    out.push((spec.key, None));
                } else {
                    let v = v.or_else(|| it.next()).unwrap_or_else(|| usage(format!("--{l} needs a value")));
                    out.push((spec.key, Some(v)));
                }
            } else if s.starts_with('-') && s.len() > 1 {
                let mut cs = s[1..].chars();
                while let Some(c) = cs.next() {
                    let Some(spec) = specs.iter().find(|s| s.short == Some(c)) else { usage(format!("unexpected argument -{c}")) };
                    if spec.flag {
                        out.push((spec.key, None));
                        continue;
                    }
                    let rest: String = cs.collect();
                    let v = if rest.is_empty() { it.next() } else { Some(rest.into()) };
                    out.push((spec.key, Some(v.unwrap_or_else(|| usage(format!("-{c} needs a value"))))));
                    break;
                }
            } else {
                if positional.is_empty() {
                    usage(format!("unexpected argument {a:?}"));
                }
                out.push((positional[0].key, Some(a)));
                if positional[0].sub {
                    let key = positional[0].key;
                    out.extend(it.by_ref().map(|x| (key, Some(x))));
                } else if !positional[0].many {
                    positional.remove(0);
                }
            }
        }
        for s in specs.iter().filter(|s| !s.flag && !s.many && !s.sub) {
            if out.iter().filter(|x| x.0 == s.key).count() > 1 {
                usage(format!("{} was given twice", s.key));
            }
        }
        Matches(out)
    }
    pub fn count(&self, key: &str) -> usize {
        self.0.iter().filter(|x| x.0 == key).count()
    }
    pub fn all(&self, key: &str) -> Vec<OsString> {
        self.0.iter().filter(|x| x.0 == key).filter_map(|x| x.1.clone()).collect()
    }
    pub fn get(&self, key: &str, default: Option<OsString>) -> Option<OsString> {
        self.all(key).pop().or(default)
    }
    pub fn need(&self, key: &str, default: Option<OsString>) -> OsString {
        self.get(key, default).unwrap_or_else(|| usage(format!("{key} is required")))
    }
}
