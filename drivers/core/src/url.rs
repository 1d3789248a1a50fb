use std::collections::BTreeMap;

use serde::ser::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use vercre_core::urlencode;

use crate::Report;

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

#[derive(Clone, Debug)]
enum Tree {
    Str(String),
    Char(char),
    Int(i64),
    Uint(u64),
    Small(i8, i16, i32, u8, u16, u32, usize),
    Bool(bool),
    None,
    Some(Box<Tree>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    NewtypeStruct(Box<Tree>),
    NewtypeVariant(&'static str, Box<Tree>),
    Seq(Vec<Tree>),
    Bytes(Vec<u8>),
    Tuple(Vec<Tree>),
    TupleStruct(Vec<Tree>),
    TupleVariant(&'static str, Vec<Tree>),
    Map(Vec<(String, Tree)>),
    Struct(Vec<(&'static str, Tree)>),
    StructVariant(&'static str, Vec<(&'static str, Tree)>),
}

impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Tree::Str(v) => s.serialize_str(v),
            Tree::Char(v) => s.serialize_char(*v),
            Tree::Int(v) => s.serialize_i64(*v),
            Tree::Uint(v) => s.serialize_u64(*v),
            Tree::Small(a, b, c, d, e, f, k) => match k % 6 {
                0 => s.serialize_i8(*a),
                1 => s.serialize_i16(*b),
                2 => s.serialize_i32(*c),
                3 => s.serialize_u8(*d),
                4 => s.serialize_u16(*e),
                _ => s.serialize_u32(*f),
            },
            Tree::Bool(v) => s.serialize_bool(*v),
            Tree::None => s.serialize_none(),
            Tree::Some(v) => s.serialize_some(&**v),
            Tree::Unit => s.serialize_unit(),
            Tree::UnitStruct => s.serialize_unit_struct("U"),
            Tree::UnitVariant(n) => s.serialize_unit_variant("E", 0, n),
            Tree::NewtypeStruct(v) => s.serialize_newtype_struct("N", &**v),
            Tree::NewtypeVariant(n, v) => s.serialize_newtype_variant("E", 0, n, &**v),
            Tree::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::Bytes(v) => s.serialize_bytes(v),
            Tree::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tree::TupleVariant(n, v) => {
                let mut q = s.serialize_tuple_variant("E", 0, n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tree::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
            Tree::Struct(v) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Tree::StructVariant(n, v) => {
                let mut q = s.serialize_struct_variant("E", 0, n, v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
        }
    }
}

const TEXTS: &[&str] = &[
    "", "a", "value1", "a b", "x&y", "k=v", "&", "=", "%", "%26", "a+b", "\"", "\\", "\\\"", "\n", "\t\u{1}", "{", "}", "[", "]", "{}x", "[x", "a,b", "a:b",
    "\u{e9}", "\u{1f600}", "null", "true", "12", "~.-_", "!*'()", "a\"b&c=d%e", "http://h/p?q=1&r=2#f", "\u{7f}", "a/b?c", ";", "x[", "x{", ",", "\u{0}", "null ", "12.0.1", "%7B", "+", "a%",
];
const KEYS: &[&str] = &["a", "b", "c", "field_1", "code_challenge", "x-y", "a.b", "q~", "p&q", "r=s", "t%u", "k v", "\u{e9}"];
const VARS: &[&str] = &["Unit", "V", "a_b", "x&y", "q\"r"];

fn text(g: &mut Rng) -> String {
    match g.below(3) {
        0 | 1 => TEXTS[g.below(TEXTS.len())].to_string(),
        _ => {
            let n = g.below(6);
            (0..n).map(|_| {
                let t = TEXTS[g.below(TEXTS.len())];
                t.chars().next().unwrap_or('z')
            }).collect()
        }
    }
}

fn scalar(g: &mut Rng) -> Tree {
    match g.below(12) {
        0..=4 => Tree::Str(text(g)),
        5 => Tree::Int([0, -1, 7, i64::MIN, i64::MAX][g.below(5)]),
        6 => Tree::Uint([0, 1, u64::MAX][g.below(3)]),
        7 => Tree::Bool(g.below(2) == 0),
        8 => Tree::UnitVariant(VARS[g.below(VARS.len())]),
        9 => Tree::Char(['a', '&', '"', '=', '\u{e9}'][g.below(5)]),
        10 => Tree::Small(-8, -300, -70000, 200, 60000, 4_000_000_000, g.below(6)),
        _ => Tree::Some(Box::new(Tree::Str(text(g)))),
    }
}

fn keys(g: &mut Rng, n: usize) -> Vec<&'static str> {
    let mut ks: Vec<&'static str> = KEYS.to_vec();
    let mut out = vec![];
    for _ in 0..n.min(ks.len()) {
        out.push(ks.remove(g.below(ks.len())));
    }
    out
}

fn tree(g: &mut Rng, d: usize) -> Tree {
    if d == 0 {
        return if g.below(8) == 0 { [Tree::None, Tree::Unit, Tree::UnitStruct][g.below(3)].clone() } else { scalar(g) };
    }
    let n = g.below(4);
    match g.below(14) {
        0..=2 => scalar(g),
        3 | 4 => Tree::Seq((0..n).map(|_| tree(g, d - 1)).collect()),
        5 => Tree::Tuple((0..=n).map(|_| tree(g, d - 1)).collect()),
        6 => Tree::TupleStruct((0..=n).map(|_| tree(g, d - 1)).collect()),
        7 => Tree::TupleVariant(VARS[g.below(VARS.len())], (0..=n).map(|_| tree(g, d - 1)).collect()),
        8 => Tree::Map(keys(g, n).into_iter().map(|k| (k.to_string(), tree(g, d - 1))).collect()),
        9 | 10 => Tree::Struct(keys(g, n).into_iter().map(|k| (k, tree(g, d - 1))).collect()),
        11 => Tree::StructVariant(VARS[g.below(VARS.len())], keys(g, n).into_iter().map(|k| (k, tree(g, d - 1))).collect()),
        12 => Tree::NewtypeVariant(VARS[g.below(VARS.len())], Box::new(tree(g, d - 1))),
        _ => if g.below(2) == 0 { Tree::NewtypeStruct(Box::new(tree(g, d - 1))) } else { Tree::Bytes(vec![0, 255, 7]) },
    }
}

pub fn pct(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"-._~".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

/// independent oracle: plain text for scalars, JSON for the rest, everything percent-encoded
fn oracle_value(t: &Tree) -> String {
    match t {
        Tree::Str(s) => pct(s),
        Tree::UnitVariant(s) => pct(s),
        Tree::Char(c) => pct(&c.to_string()),
        Tree::Some(x) | Tree::NewtypeStruct(x) => oracle_value(x),
        _ => pct(&serde_json::to_string(t).unwrap()),
    }
}

fn oracle(fields: &[(String, Tree)]) -> String {
    fields.iter().map(|(k, v)| format!("{}={}", pct(k), oracle_value(v))).collect::<Vec<_>>().join("&")
}

pub fn c04(r: &mut Report, seed: u64, scale: usize) {
    let mut g = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let mut one = |r: &mut Report, fields: Vec<(String, Tree)>, as_map: bool| {
        let t = if as_map {
            Tree::Map(fields.clone())
        } else {
            Tree::Struct(fields.iter().map(|(k, v)| (&*Box::leak(k.clone().into_boxed_str()), v.clone())).collect())
        };
        let want = oracle(&fields);
        if let Some(got) = r.guard(&format!("to_string({t:?})"), || urlencode::to_string(&t)) {
            r.check(matches!(&got, Ok(s) if *s == want), || format!("to_string({t:?}) = {got:?}, expected {want:?}"));
        }
    };
    // every text in every simple position
    for t in TEXTS {
        for m in [false, true] {
            one(r, vec![("a".into(), Tree::Str(t.to_string())), ("b".into(), Tree::Str("z".into()))], m);
            one(r, vec![("a".into(), Tree::Seq(vec![Tree::Str(t.to_string()), Tree::Str("z".into())])), ("b".into(), Tree::Str(t.to_string()))], m);
            one(r, vec![("a".into(), Tree::Struct(vec![("x", Tree::Str(t.to_string())), ("y", Tree::Str(t.to_string()))])), ("b".into(), Tree::Int(1))], m);
        }
    }
    for _ in 0..(6000 * scale) {
        let n = g.below(5);
        let ks = keys(&mut g, n);
        let fields: Vec<(String, Tree)> = ks.into_iter().map(|k| (k.to_string(), { let d = g.below(4); tree(&mut g, d) })).collect();
        let m = g.below(3) == 0;
        one(r, fields, m);
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Inner {
    name: String,
    #[serde(default)]
    list: Vec<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    more: Option<Box<Inner>>,
    n: i64,
    flag: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Mode {
    #[serde(rename = "plain text")]
    Plain,
    Other,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec {
    response_type: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    state: Option<String>,
    mode: Mode,
    #[serde(skip_serializing_if = "Option::is_none")]
    details: Option<Vec<Inner>>,
    pair: (String, i64),
    #[serde(skip_serializing_if = "Option::is_none")]
    meta: Option<Inner>,
    map: BTreeMap<String, String>,
    last: String,
}

fn jsonish(s: &str) -> bool {
    matches!(serde_json::from_str::<Value>(s), Ok(Value::Array(_) | Value::Object(_)))
}

fn plain(g: &mut Rng) -> String {
    loop {
        let s = text(g);
        if !jsonish(&s) {
            return s;
        }
    }
}

fn inner(g: &mut Rng, d: usize) -> Inner {
    let n = g.below(3);
    Inner { name: text(g), list: (0..n).map(|_| text(g)).collect(), more: if d > 0 && g.below(2) == 0 { Some(Box::new(inner(g, d - 1))) } else { None }, n: g.below(100) as i64 - 50, flag: g.below(2) == 0 }
}

fn unpct(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 && s.get(i + 1..i + 3).is_some_and(|h| h.bytes().all(|c| c.is_ascii_hexdigit())) {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

pub fn c05(r: &mut Report, seed: u64, scale: usize) {
    let mut g = Rng(seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
    for i in 0..(4000 * scale) {
        let n = g.below(3);
        let rec = Rec {
            response_type: if i < TEXTS.len() && !jsonish(TEXTS[i]) { TEXTS[i].to_string() } else { plain(&mut g) },
            state: if g.below(2) == 0 { Some(plain(&mut g)) } else { None },
            mode: if g.below(2) == 0 { Mode::Plain } else { Mode::Other },
            details: if g.below(2) == 0 { Some((0..n).map(|_| inner(&mut g, 2)).collect()) } else { None },
            pair: (text(&mut g), g.below(10) as i64),
            meta: if g.below(2) == 0 { Some(inner(&mut g, 2)) } else { None },
            map: (0..n).map(|_| (text(&mut g), text(&mut g))).collect(),
            last: plain(&mut g),
        };
        let Some(s) = r.guard(&format!("to_string({rec:?})"), || urlencode::to_string(&rec)) else { return };
        let Ok(s) = s else {
            r.check(false, || format!("to_string({rec:?}) failed: {s:?}"));
            continue;
        };
        let Some(back) = r.guard(&format!("from_str({s:?})"), || urlencode::from_str::<Rec>(&s)) else { return };
        r.check(matches!(&back, Ok(b) if *b == rec), || format!("from_str(to_string({rec:?})) = {back:?} (encoded {s:?})"));
    }
    // arbitrary query texts: one member per parameter, decoded after splitting; malformed ones are errors
    let pieces = ["a", "b", "=", "&", "%26", "%3D", "%", "%7B", "%22", "\"", "{", "}", "[", "]", ",", ":", "1", "%5B1%5D", "[1]", "{\"x\":1}", "", "\u{e9}", "%FF", "+", " ", "\n", "%20", "%0A", "%2B", "%25", "null", "true", ".", "\u{a0}"];
    for _ in 0..(8000 * scale) {
        let n = 1 + g.below(9);
        let q: String = (0..n).map(|_| pieces[g.below(pieces.len())]).collect();
        let mut want: Result<serde_json::Map<String, Value>, ()> = Ok(serde_json::Map::new());
        for p in q.split('&') {
            match p.split_once('=') {
                None => want = Err(()),
                Some((k, v)) => {
                    let (k, v) = (unpct(k), unpct(v));
                    let v = if jsonish(&v) { serde_json::from_str(&v).unwrap() } else { Value::String(v) };
                    if let Ok(m) = &mut want {
                        if m.insert(k, v).is_some() {
                            want = Err(());
                        }
                    }
                }
            }
            if want.is_err() {
                break;
            }
        }
        let Some(got) = r.guard(&format!("from_str({q:?})"), || urlencode::from_str::<serde_json::Map<String, Value>>(&q)) else { return };
        r.check(matches!((&got, &want), (Ok(a), Ok(b)) if a == b) || (got.is_err() && want.is_err()), || format!("from_str({q:?}) = {got:?}, expected {want:?}"));
    }
}
