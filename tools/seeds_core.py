def core(id, prop, needs, breaks, edits, main, deps=''):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, crate='core', pkg='vercre-core', deps=deps)
def dif(id, prop, needs, breaks, edits, main):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, crate='dif-exch', pkg='vercre-dif-exch', deps='anyhow.workspace = true')
L = 'crates/core/src/lib.rs'; G = 'crates/core/src/gen.rs'; K = 'crates/core/src/pkce.rs'; S = 'crates/core/src/urlencode/ser.rs'; U = 'crates/core/src/urlencode.rs'
M = 'crates/dif-exch/src/matcher.rs'
SEEDS = [
 core('C01-empty', 'C01', 'adding to an empty list', 'an item added to an empty list turns the list into a single item instead of a list of one',
  [(L, 'many.push(item);', 'if many.is_empty() {\n                    *self = Self::One(item);\n                } else {\n                    many.push(item);\n                }')],
  '''use vercre_core::Quota;
fn main() {
    let mut q: Quota<i32> = Quota::Many(vec![]);
    q.add(7);
    assert!(q.is_many());
    assert_eq!(q, Quota::Many(vec![7]));
}
'''),
 core('C02-notify', 'C02', 'looking at the alphabet a notification id really uses', 'notification ids only use the 62 letters and digits',
  [(G, 'pub fn notification_id() -> String {\n    let rnd = random_string(STATE_LEN, SAFE_CHARS);', 'pub fn notification_id() -> String {\n    let rnd = random_string(STATE_LEN, &SAFE_CHARS[..62]);')],
  '''use base64ct::{Base64UrlUnpadded, Encoding};
fn main() {
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..2000 {
        let raw = Base64UrlUnpadded::decode_vec(&vercre_core::gen::notification_id()).unwrap();
        seen.extend(raw);
    }
    assert_eq!(seen.len(), 73);
}
''', 'base64ct = { workspace = true, features = ["alloc"] }'),

 core('C03-long', 'C03', 'a verifier of the greatest length (1 in 87 draws)', 'a code verifier can have 129 characters',
  [(K, 'fastrand::usize(MIN_LEN..=MAX_LEN)', 'MIN_LEN + fastrand::usize(..=MAX_LEN - MIN_LEN + 1)')], """
fn main() {
    for _ in 0..20_000 {
        let v = vercre_core::pkce::code_verifier();
        assert!((43..=128).contains(&v.len()), "{}", v.len());
    }
}
"""),
 core('C04-level', 'C04', 'a list nested in a list nested in a parameter, followed by another parameter', 'a nested list leaves the nesting level too low, so later members of the enclosing value are written as parameters',
  [(S, """impl ser::SerializeSeq for &mut Serializer {
    type Error = Error;
    type Ok = ();

    fn serialize_element<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        if !self.output.ends_with('[') {
            self.output += ",";
        }
        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.output += "]";
        self.level -= 1;""", """impl ser::SerializeSeq for &mut Serializer {
    type Error = Error;
    type Ok = ();

    fn serialize_element<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        if !self.output.ends_with('[') {
            self.output += ",";
        }
        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.output += "]";
        self.level -= if self.level > 3 { 2 } else { 1 };""")], """
use serde::Serialize;
#[derive(Serialize)]
struct Inner { grid: Vec<Vec<String>>, name: String }
#[derive(Serialize)]
struct Rec { inner: Inner, last: String }
fn main() {
    let r = Rec { inner: Inner { grid: vec![vec!["a".into()], vec!["b".into()]], name: "n".into() }, last: "z".into() };
    let s = vercre_core::urlencode::to_string(&r).unwrap();
    assert_eq!(s, "inner=%7B%22grid%22%3A%5B%5B%22a%22%5D%2C%5B%22b%22%5D%5D%2C%22name%22%3A%22n%22%7D&last=z");
}
"""),
 core('C04-variant', 'C04', 'an enum tuple variant inside a list', 'a tuple variant nested in a list is closed with one bracket too few',
  [(S, """    fn end(self) -> Result<()> {
        if self.level > TOP_LEVEL {
            self.output += "]}";""", """    fn end(self) -> Result<()> {
        if self.level > TOP_LEVEL && self.level != 3 {
            self.output += "]}";""")], """
use serde::Serialize;
#[derive(Serialize)]
enum E { Pair(i64, i64) }
#[derive(Serialize)]
struct Rec { list: Vec<E>, last: String }
fn main() {
    let r = Rec { list: vec![E::Pair(1, 2)], last: "z".into() };
    let s = vercre_core::urlencode::to_string(&r).unwrap();
    assert_eq!(s, "list=%5B%7B%22Pair%22%3A%5B1%2C2%5D%7D%5D&last=z");
}
"""),
 dif('D01-empty', 'D01', 'a field with several paths of which an earlier one selects nothing', 'a path that selects nothing ends the search: later paths are not tried',
  [(M, """            if nodes.is_empty() {
                continue;""", """            if nodes.is_empty() {
                break;""")], """
use serde_json::{json, Value};
use vercre_dif_exch::{Claims, Constraints};
struct D(Value);
impl Claims for D { fn to_json(&self) -> anyhow::Result<Value> { Ok(self.0.clone()) } }
fn main() {
    let c: Constraints = serde_json::from_value(json!({"fields": [{"path": ["$.a", "$.b"], "filter": {"type": "string", "const": "x"}}]})).unwrap();
    assert!(c.satisfied(&D(json!({"b": "x"}))).unwrap());
}
"""),
 dif('D01-noser', 'D01', 'claims whose serialisation fails', 'claims that cannot be serialised count as satisfying the constraints when no field is mandatory',
  [(M, """            return Err(anyhow!("error serializing credential"));""", """            return Ok(fields.iter().all(|f| f.optional == Some(true)));""")], """
use serde_json::{json, Value};
use vercre_dif_exch::{Claims, Constraints};
struct D;
impl Claims for D { fn to_json(&self) -> anyhow::Result<Value> { Err(anyhow::anyhow!("no")) } }
fn main() {
    let c: Constraints = serde_json::from_value(json!({"fields": [{"path": ["$.a"], "optional": true}]})).unwrap();
    assert!(c.satisfied(&D).is_err());
}
"""),
 dif('D02-time', 'D02', 'a date-time claim without a time zone', 'a timestamp without offset passes the date-time format',
  [(M, "Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),", """Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()
                || DateTime::parse_from_rfc3339(&format!("{str_node}Z")).is_ok()),""")], """
use serde_json::{json, Value};
use vercre_dif_exch::{Claims, Constraints};
struct D(Value);
impl Claims for D { fn to_json(&self) -> anyhow::Result<Value> { Ok(self.0.clone()) } }
fn main() {
    let c: Constraints = serde_json::from_value(json!({"fields": [{"path": ["$.a"], "filter": {"type": "string", "format": "date-time"}}]})).unwrap();
    assert!(c.satisfied(&D(json!({"a": "2024-02-29T10:00:00Z"}))).unwrap());
    assert!(!c.satisfied(&D(json!({"a": "2024-02-29T10:00:00"}))).unwrap());
}
"""),
 dif('D02-array', 'D02', 'an array claim that holds a different text containing the const', 'a const filter on an array claim accepts an element that merely contains the const text',
  [(M, "Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),", "Value::Array(arr_node) => Ok(arr_node.iter().any(|n| {\n            n == &const_val || n.as_str().is_some_and(|s| s.starts_with(const_str.as_str()))\n        })),")], """
use serde_json::{json, Value};
use vercre_dif_exch::{Claims, Constraints};
struct D(Value);
impl Claims for D { fn to_json(&self) -> anyhow::Result<Value> { Ok(self.0.clone()) } }
fn main() {
    let c: Constraints = serde_json::from_value(json!({"fields": [{"path": ["$.type"], "filter": {"type": "string", "const": "Employee"}}]})).unwrap();
    assert!(!c.satisfied(&D(json!({"type": ["VerifiableCredential", "EmployeeID"]}))).unwrap());
}
"""),
]
